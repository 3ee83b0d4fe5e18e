#[derive(Clone, Debug, Eq, Hash, PartialEq, PartialOrd, Ord)]
pub struct SequenceSet(pub Vec<(u32, u32)>);
bounded!(SequenceSet);
