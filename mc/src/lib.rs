pub mod sys;
pub mod alloc;
pub mod sup;
pub mod reg;
pub mod util;
pub mod shape;
pub mod model;
pub mod own;
pub mod rc;
pub mod edits;
pub mod itermut;
pub mod consume;
pub mod childiter;
pub mod conv;
pub mod bfs;
pub mod walk;
pub mod borrow;
pub mod notation;
pub mod cmp;
pub mod text;
pub mod copy;
pub mod fault;
pub mod huge;
