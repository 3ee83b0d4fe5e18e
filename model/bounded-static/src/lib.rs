//! Signature-level model of the `bounded-static` crate.
use std::borrow::Cow;
pub use bounded_static_derive::ToStatic;

pub trait ToBoundedStatic {
    type Static: 'static;
    fn to_static(&self) -> Self::Static;
}
pub trait IntoBoundedStatic {
    type Static: 'static;
    fn into_static(self) -> Self::Static;
}
macro_rules! prim {
    ($($t:ty),* $(,)?) => {$(
        impl ToBoundedStatic for $t { type Static = $t; fn to_static(&self) -> $t { self.clone() } }
        impl IntoBoundedStatic for $t { type Static = $t; fn into_static(self) -> $t { self } }
    )*};
}
prim!(
    bool, char, u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, String, (), std::num::NonZeroU8,
    std::num::NonZeroU32, std::num::NonZeroU64
);
impl ToBoundedStatic for &'static str {
    type Static = &'static str;
    fn to_static(&self) -> &'static str {
        self
    }
}
impl<'a> ToBoundedStatic for Cow<'a, str> {
    type Static = Cow<'static, str>;
    fn to_static(&self) -> Cow<'static, str> {
        Cow::Owned(self.clone().into_owned())
    }
}
impl<'a> IntoBoundedStatic for Cow<'a, str> {
    type Static = Cow<'static, str>;
    fn into_static(self) -> Cow<'static, str> {
        Cow::Owned(self.into_owned())
    }
}
impl<'a, T: Clone + 'static> ToBoundedStatic for Cow<'a, [T]> {
    type Static = Cow<'static, [T]>;
    fn to_static(&self) -> Cow<'static, [T]> {
        Cow::Owned(self.clone().into_owned())
    }
}
impl<'a, T: Clone + 'static> IntoBoundedStatic for Cow<'a, [T]> {
    type Static = Cow<'static, [T]>;
    fn into_static(self) -> Cow<'static, [T]> {
        Cow::Owned(self.into_owned())
    }
}
impl<T: ToBoundedStatic> ToBoundedStatic for Option<T> {
    type Static = Option<T::Static>;
    fn to_static(&self) -> Self::Static {
        self.as_ref().map(|x| x.to_static())
    }
}
impl<T: IntoBoundedStatic> IntoBoundedStatic for Option<T> {
    type Static = Option<T::Static>;
    fn into_static(self) -> Self::Static {
        self.map(|x| x.into_static())
    }
}
impl<T: ToBoundedStatic> ToBoundedStatic for Vec<T> {
    type Static = Vec<T::Static>;
    fn to_static(&self) -> Self::Static {
        self.iter().map(|x| x.to_static()).collect()
    }
}
impl<T: IntoBoundedStatic> IntoBoundedStatic for Vec<T> {
    type Static = Vec<T::Static>;
    fn into_static(self) -> Self::Static {
        self.into_iter().map(|x| x.into_static()).collect()
    }
}
impl<T: ToBoundedStatic> ToBoundedStatic for Box<T> {
    type Static = Box<T::Static>;
    fn to_static(&self) -> Self::Static {
        Box::new((**self).to_static())
    }
}
impl<T: IntoBoundedStatic> IntoBoundedStatic for Box<T> {
    type Static = Box<T::Static>;
    fn into_static(self) -> Self::Static {
        Box::new((*self).into_static())
    }
}
impl<A: ToBoundedStatic, B: ToBoundedStatic> ToBoundedStatic for (A, B) {
    type Static = (A::Static, B::Static);
    fn to_static(&self) -> Self::Static {
        (self.0.to_static(), self.1.to_static())
    }
}
impl<A: IntoBoundedStatic, B: IntoBoundedStatic> IntoBoundedStatic for (A, B) {
    type Static = (A::Static, B::Static);
    fn into_static(self) -> Self::Static {
        (self.0.into_static(), self.1.into_static())
    }
}
