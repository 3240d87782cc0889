//! Stand-in for `drop_bomb`: panics when dropped while armed.
pub struct DropBomb { msg: &'static str, defused: bool }
impl DropBomb {
    pub fn new(msg: &'static str) -> DropBomb { DropBomb { msg, defused: false } }
    pub fn defuse(&mut self) { self.defused = true }
    pub fn is_defused(&self) -> bool { self.defused }
}
impl Drop for DropBomb {
    fn drop(&mut self) {
        if !self.defused && !std::thread::panicking() { panic!("{}", self.msg) }
    }
}
