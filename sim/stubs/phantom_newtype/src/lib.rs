//! Offline stand-in for dfinity/ic `phantom_newtype` (the parts a canister uses).
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::ops::{Add, AddAssign, Sub, SubAssign};

macro_rules! common {
    ($T:ident) => {
        impl<U, R> $T<U, R> {
            pub const fn new(r: R) -> Self {
                $T(r, PhantomData)
            }
            pub const fn get_ref(&self) -> &R {
                &self.0
            }
        }
        impl<U, R: Copy> $T<U, R> {
            pub const fn get(&self) -> R {
                self.0
            }
        }
        impl<U, R: Clone> Clone for $T<U, R> {
            fn clone(&self) -> Self {
                Self::new(self.0.clone())
            }
        }
        impl<U, R: Copy> Copy for $T<U, R> {}
        impl<U, R: PartialEq> PartialEq for $T<U, R> {
            fn eq(&self, o: &Self) -> bool {
                self.0 == o.0
            }
        }
        impl<U, R: Eq> Eq for $T<U, R> {}
        impl<U, R: PartialOrd> PartialOrd for $T<U, R> {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                self.0.partial_cmp(&o.0)
            }
        }
        impl<U, R: Ord> Ord for $T<U, R> {
            fn cmp(&self, o: &Self) -> Ordering {
                self.0.cmp(&o.0)
            }
        }
        impl<U, R: Hash> Hash for $T<U, R> {
            fn hash<H: Hasher>(&self, h: &mut H) {
                self.0.hash(h)
            }
        }
        impl<U, R: fmt::Debug> fmt::Debug for $T<U, R> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.0.fmt(f)
            }
        }
        impl<U, R: fmt::Display> fmt::Display for $T<U, R> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.0.fmt(f)
            }
        }
        impl<U, R> From<R> for $T<U, R> {
            fn from(r: R) -> Self {
                Self::new(r)
            }
        }
        impl<U, R> AsRef<R> for $T<U, R> {
            fn as_ref(&self) -> &R {
                &self.0
            }
        }
        impl<U, R: Default> Default for $T<U, R> {
            fn default() -> Self {
                Self::new(R::default())
            }
        }
        impl<U, R: Serialize> Serialize for $T<U, R> {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                self.0.serialize(s)
            }
        }
        impl<'de, U, R: Deserialize<'de>> Deserialize<'de> for $T<U, R> {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                R::deserialize(d).map(Self::new)
            }
        }
        impl<U, R: candid::CandidType> candid::CandidType for $T<U, R> {
            fn _ty() -> candid::types::Type {
                R::_ty()
            }
            fn idl_serialize<S: candid::types::Serializer>(&self, s: S) -> Result<(), S::Error> {
                self.0.idl_serialize(s)
            }
        }
    };
}

pub struct Id<Entity, Repr>(Repr, PhantomData<std::sync::Mutex<Entity>>);
common!(Id);
pub struct Amount<Unit, Repr>(Repr, PhantomData<std::sync::Mutex<Unit>>);
common!(Amount);
pub type AmountOf<Unit, Repr> = Amount<Unit, Repr>;

impl<U, R: Add<Output = R>> Add for Amount<U, R> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Self::new(self.0 + o.0)
    }
}
impl<U, R: Sub<Output = R>> Sub for Amount<U, R> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        Self::new(self.0 - o.0)
    }
}
impl<U, R: AddAssign> AddAssign for Amount<U, R> {
    fn add_assign(&mut self, o: Self) {
        self.0 += o.0
    }
}
impl<U, R: SubAssign> SubAssign for Amount<U, R> {
    fn sub_assign(&mut self, o: Self) {
        self.0 -= o.0
    }
}
