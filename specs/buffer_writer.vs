//@ file buffer_writer.rs
//@ top
use crate::nums::le_fix;
broadcast use crate::shim::shim_axioms;
//@ impl BufferWriter
pub open spec fn written(&self) -> Seq<u8> { self.buffer@ }
//@ fn BufferWriter::new
//@ ret r
ensures r.written() == Seq::<u8>::empty(),
//@ fn BufferWriter::write_u8
ensures final(self).written() == old(self).written() + seq![value],
//@ fn BufferWriter::write_u32
ensures final(self).written() == old(self).written() + le_fix(value as nat, 4),
//@ fn BufferWriter::write_u64
ensures final(self).written() == old(self).written() + le_fix(value as nat, 8),
//@ fn BufferWriter::write_buffer
ensures final(self).written() == old(self).written() + value@,
//@ fn BufferWriter::write_hash
ensures final(self).written() == old(self).written() + value@,
//@ fn BufferWriter::buffer
//@ ret r
ensures r@ == self.written(),
