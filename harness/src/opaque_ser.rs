//! sinks of the recording serializer (given a meaning by the analyser)
pub fn begin_seq(_n: Option<usize>) { unimplemented!() }
pub fn begin_map(_n: Option<usize>) { unimplemented!() }
pub fn begin_tuple(_n: usize) { unimplemented!() }
pub fn emit_bool(_b: bool) { unimplemented!() }
pub fn end() { unimplemented!() }
