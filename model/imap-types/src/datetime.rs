#[derive(Clone, Debug, Eq, Hash, PartialEq, PartialOrd, Ord)]
pub struct DateTime(pub i64);
bounded!(DateTime);
#[derive(Clone, Debug, Eq, Hash, PartialEq, PartialOrd, Ord)]
pub struct NaiveDate(pub i64);
bounded!(NaiveDate);
