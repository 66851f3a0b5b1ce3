import sys; sys.path.insert(0, '/verif/tools/demo'); import ct
ID='C16-and'; PROP='C16'; RUST=True
NEEDS='the conditional selection that every modular operation ends with, for both values of the condition'
BREAKS='and_bool_assign branches on the condition, which is a secret borrow or carry in all callers.'
EDITS=[('crylib/src/big_int/unsigned.rs', '''        let mask = (rhs as u64).wrapping_neg();
        for digit in self.0.iter_mut() {
            *digit &= mask
        }
''', '''        for digit in self.0.iter_mut() {
            *digit = rhs.then_some(*digit).unwrap_or(0)
        }
''')]
DEMO=ct.demo('''let mut x = UBigInt(*a);
    x.and_bool_assign(b[0] == 1);
    x.0[3]''', [('[9, 1, 2, 3]', '[0, 0, 0, 0]'), ('[9, 1, 2, 3]', '[1, 0, 0, 0]')])
