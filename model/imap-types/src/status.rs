use std::num::NonZeroU32;
#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq)]
#[non_exhaustive]
pub enum StatusDataItemName {
    Messages,
    Recent,
    UidNext,
    UidValidity,
    Unseen,
}
bounded!(StatusDataItemName);
#[derive(Clone, Debug, Eq, Hash, PartialEq)]
#[non_exhaustive]
pub enum StatusDataItem {
    Messages(u32),
    Recent(u32),
    UidNext(NonZeroU32),
    UidValidity(NonZeroU32),
    Unseen(u32),
}
bounded!(StatusDataItem);
