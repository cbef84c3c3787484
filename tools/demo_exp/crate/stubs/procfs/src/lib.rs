//! Only what flush_cache names.
pub type ProcResult<T> = Result<T, std::io::Error>;
pub mod sys {
    pub mod vm {
        pub enum DropCache {
            Default,
            PageCache,
            Inodes,
            All,
            Disable,
        }
        pub fn drop_caches(_: DropCache) -> crate::ProcResult<()> {
            Ok(())
        }
    }
}
