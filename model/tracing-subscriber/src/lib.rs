//! Model of `tracing-subscriber`.
pub struct EnvFilter;
impl EnvFilter {
    pub fn from_default_env() -> Self {
        EnvFilter
    }
}
pub struct Builder;
pub fn fmt() -> Builder {
    Builder
}
impl Builder {
    pub fn with_env_filter(self, _: EnvFilter) -> Self {
        self
    }
    pub fn with_target(self, _: bool) -> Self {
        self
    }
    pub fn with_file(self, _: bool) -> Self {
        self
    }
    pub fn with_line_number(self, _: bool) -> Self {
        self
    }
    pub fn without_time(self) -> Self {
        self
    }
    pub fn init(self) {}
}
