//! Coefficient fields used by the checks, with an independent integer model.
use phlite::fields::{Invertible, NonZeroCoefficient, Q, Z11, Z13, Z2, Z3, Z5, Z7};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::ops::{Add, Mul};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Fld {
    Z2,
    Z3,
    Z5,
    Z7,
    Z11,
    Z13,
    Q,
    /// A user-supplied field (integers modulo 65537), trusted by the harness.
    User,
}

pub const BIGP: u64 = (1 << 61) - 1;

impl Fld {
    /// Characteristic, 0 for the rationals.
    pub fn p(self) -> u64 {
        match self {
            Fld::Z2 => 2,
            Fld::Z3 => 3,
            Fld::Z5 => 5,
            Fld::Z7 => 7,
            Fld::Z11 => 11,
            Fld::Z13 => 13,
            Fld::Q => 0,
            Fld::User => 65537,
        }
    }
    /// Modulus used by the reference linear algebra. Ranks over Q of small integer matrices are taken
    /// modulo 2^61-1.
    pub fn refp(self) -> u64 {
        if self == Fld::Q {
            BIGP
        } else {
            self.p()
        }
    }
    /// Reduce an integer to the canonical model representative; `None` when it is zero in the field.
    pub fn model(self, i: i64) -> i64 {
        let p = self.p() as i64;
        if p == 0 {
            i
        } else {
            i.rem_euclid(p)
        }
    }
}

pub fn any_field() -> impl Strategy<Value = Fld> {
    prop_oneof![
        4 => Just(Fld::Z2),
        4 => Just(Fld::Z3),
        2 => Just(Fld::Z5),
        1 => Just(Fld::Z7),
        1 => Just(Fld::Z11),
        1 => Just(Fld::Z13),
        2 => Just(Fld::Q),
        2 => Just(Fld::User),
    ]
}

/// Library field usable in checks: an element can be produced from an integer.
pub trait TF: Invertible + std::fmt::Debug + Send + Sync + 'static {
    const TAG: Fld;
    fn from_i(i: i64) -> Option<Self> {
        let m = Self::TAG.model(i);
        if m == 0 {
            return None;
        }
        // double-and-add from one()
        let neg = m < 0;
        let mut k = m.unsigned_abs();
        let mut acc: Option<Self> = None;
        let mut pow: Option<Self> = Some(Self::one());
        while k > 0 {
            if k & 1 == 1 {
                acc = match (pow, acc) {
                    (Some(x), a) => x + a,
                    (None, a) => a,
                };
            }
            k >>= 1;
            if k > 0 {
                pow = pow.and_then(|x| x + x);
            }
        }
        if neg {
            acc.map(|a| a.additive_inverse())
        } else {
            acc
        }
    }
}
impl TF for Z2 {
    const TAG: Fld = Fld::Z2;
}
impl TF for Z3 {
    const TAG: Fld = Fld::Z3;
}
impl TF for Z5 {
    const TAG: Fld = Fld::Z5;
}
impl TF for Z7 {
    const TAG: Fld = Fld::Z7;
}
impl TF for Z11 {
    const TAG: Fld = Fld::Z11;
}
impl TF for Z13 {
    const TAG: Fld = Fld::Z13;
}
impl TF for Q {
    const TAG: Fld = Fld::Q;
}

/// User-supplied field: integers mod 65537.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct User(u32);
const UP: u64 = 65537;
impl Add for User {
    type Output = Option<User>;
    fn add(self, o: User) -> Option<User> {
        let s = (self.0 as u64 + o.0 as u64) % UP;
        (s != 0).then_some(User(s as u32))
    }
}
impl Add<Option<User>> for User {
    type Output = Option<User>;
    fn add(self, o: Option<User>) -> Option<User> {
        match o {
            None => Some(self),
            Some(o) => self + o,
        }
    }
}
impl Mul for User {
    type Output = User;
    fn mul(self, o: User) -> User {
        User((self.0 as u64 * o.0 as u64 % UP) as u32)
    }
}
impl NonZeroCoefficient for User {
    fn one() -> Self {
        User(1)
    }
    fn additive_inverse(self) -> Self {
        User(UP as u32 - self.0)
    }
}
impl Invertible for User {
    fn mult_inverse(self) -> Self {
        User(crate::refla::inv(self.0 as u64, UP) as u32)
    }
}
impl TF for User {
    const TAG: Fld = Fld::User;
    fn from_i(i: i64) -> Option<Self> {
        let m = i.rem_euclid(UP as i64);
        (m != 0).then_some(User(m as u32))
    }
}

#[macro_export]
macro_rules! with_field {
    ($tag:expr, $f:ident :: < _ $(, $extra:ty)* > ( $($arg:expr),* $(,)? )) => {{
        use phlite::fields::{Q, Z2, Z3, Z5, Z7, Z11, Z13};
        use $crate::fields::{Fld, User};
        match $tag {
            Fld::Z2 => $f::<Z2 $(, $extra)*>($($arg),*),
            Fld::Z3 => $f::<Z3 $(, $extra)*>($($arg),*),
            Fld::Z5 => $f::<Z5 $(, $extra)*>($($arg),*),
            Fld::Z7 => $f::<Z7 $(, $extra)*>($($arg),*),
            Fld::Z11 => $f::<Z11 $(, $extra)*>($($arg),*),
            Fld::Z13 => $f::<Z13 $(, $extra)*>($($arg),*),
            Fld::Q => $f::<Q $(, $extra)*>($($arg),*),
            Fld::User => $f::<User $(, $extra)*>($($arg),*),
        }
    }};
}
