import sys; sys.path.insert(0, '/verif/tools/demo'); import ct
ID='C16-field'; PROP='C16'; RUST=True
NEEDS='a subtraction of field elements whose result is not negative, timed against one that wraps'
BREAKS='FieldElement::sub adds the modulus back only if the difference wrapped, so its duration tells which operand is larger.'
EDITS=[('crylib/src/finite_field/field_element.rs', '''        unsafe { Self::new_unchecked(difference.add(&(F::MODULUS.and_bool(mask)))) }
''', '''        if !mask {
            return unsafe { Self::new_unchecked(difference) };
        }
        unsafe { Self::new_unchecked(difference.add(&F::MODULUS)) }
''')]
DEMO=ct.demo('''use crylib::{ec::Secp256r1, finite_field::FieldElement};
    let f = |x: &[u64; 4]| unsafe { FieldElement::<4, Secp256r1>::new_unchecked(UBigInt(*x)) };
    f(a).sub(&f(b)).inner().0[0]''', [('[9, 1, 2, 3]', '[5, 1, 2, 3]'), ('[5, 1, 2, 3]', '[9, 1, 2, 3]')])
