import sys; sys.path.insert(0, '/verif/tools/demo'); import ct
ID='C16-mul'; PROP='C16'; RUST=True
NEEDS='an operand with a digit that is zero, timed against one without'
BREAKS='The multiplication by a digit skips digits that are zero.'
EDITS=[('crylib/src/big_int/unsigned.rs', '''    pub fn mul_digit_assign(&mut self, digit: u64) {
        let mut carry = 0;
        for i in self.0.iter_mut() {
            (*i, carry) = carry_mul(*i, digit, carry);
        }
''', '''    pub fn mul_digit_assign(&mut self, digit: u64) {
        let mut carry = 0;
        for i in self.0.iter_mut() {
            (*i, carry) = match *i {
                0 => (carry, 0),
                _ => carry_mul(*i, digit, carry),
            };
        }
''')]
DEMO=ct.demo('''let mut x = UBigInt(*a);
    x.mul_digit_assign(b[0]);
    x.0[3]''', [('[9, 1, 2, 3]', '[7, 0, 0, 0]'), ('[5, 0, 2, 3]', '[7, 0, 0, 0]'), ('[u64::MAX; 4]', '[u64::MAX, 0, 0, 0]')])
