//! meerkatdb's store, compiled straight from /repo's working tree.
#![allow(warnings)]
include!(concat!(env!("OUT_DIR"), "/store_mod.rs"));
pub const SRC_HASH: &str = env!("MEERKAT_SRC_HASH");
pub use store::sim_api::*;

/// The store's entry points, instantiated in this crate, which is compiled with preemption points, and
/// not in the simulator's.
pub mod calls {
    use super::*;
    use std::future::Future;
    use std::pin::Pin;
    type Fut<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;

    #[inline(never)]
    pub fn new_segment<'a>(dir: String, info: SegmentInfo) -> Fut<'a, anyhow::Result<SegmentWriter>> {
        Box::pin(SegmentWriter::new(dir, info))
    }
    #[inline(never)]
    pub fn write_batch<'a, 'b: 'a>(w: &'a mut ColumnWriter<'b, BinaryBuffer>, buf: &'a BinaryBuffer) -> Fut<'a, anyhow::Result<()>> {
        Box::pin(w.write(buf))
    }
    #[inline(never)]
    pub fn close_column<'a, 'b: 'a>(w: &'a mut ColumnWriter<'b, BinaryBuffer>) -> Fut<'a, anyhow::Result<()>> {
        Box::pin(w.close())
    }
    #[inline(never)]
    pub fn close_segment<'a>(w: &'a mut SegmentWriter) -> Fut<'a, anyhow::Result<()>> {
        Box::pin(w.sim_close())
    }
    #[inline(never)]
    pub fn sync_segment<'a>(w: SegmentWriter) -> Fut<'a, anyhow::Result<()>> {
        Box::pin(w.sim_sync())
    }
    #[inline(never)]
    pub fn new_writer<'a>(path: String) -> Fut<'a, std::io::Result<BlockWriter>> {
        Box::pin(BlockWriter::new(path))
    }
    #[inline(never)]
    pub fn write_block<'a>(w: &'a mut BlockWriter, block: &'a [u8]) -> Fut<'a, std::io::Result<()>> {
        Box::pin(w.write_block(block))
    }
    #[inline(never)]
    pub fn flush<'a>(w: &'a mut BlockWriter) -> Fut<'a, std::io::Result<()>> {
        Box::pin(w.flush())
    }
    #[inline(never)]
    pub fn sync<'a>(w: &'a mut BlockWriter) -> Fut<'a, std::io::Result<()>> {
        Box::pin(w.sync())
    }
    #[inline(never)]
    pub fn new_reader<'a>(path: String) -> Fut<'a, std::io::Result<Reader>> {
        Box::pin(Reader::new(path))
    }
}
