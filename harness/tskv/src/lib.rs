pub mod codec;
pub mod compact;
pub mod files;
pub mod mem;
pub mod merge;
pub mod read;
pub mod record;
pub mod tomb;
pub mod utils_;
pub mod vnode;
