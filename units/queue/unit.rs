#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
verus! {
//@include ../common/prelude.rs
fn main() {}
pub type Cause = String;
//@item crates/aptos-language-server/src/op_queue.rs OpQueue
impl<Args, Output> OpQueue<Args, Output> {
    /// the request waiting to be started
    pub closed spec fn waiting(self) -> Option<(Cause, Args)> { self.op_requested }
    pub closed spec fn busy(self) -> bool { self.op_in_progress }
    pub closed spec fn last(self) -> Option<Output> { self.last_op_result }
//@fn crates/aptos-language-server/src/op_queue.rs Default@OpQueue::default as new_queue
//@ret r
//@spec
    ensures r.waiting() is None, !r.busy(), r.last() is None
//@end
//@fn crates/aptos-language-server/src/op_queue.rs OpQueue::request_op
//@spec
    ensures final(self).waiting() == Some((cause, args)), final(self).busy() == old(self).busy(), final(self).last() == old(self).last()
//@end
//@fn crates/aptos-language-server/src/op_queue.rs OpQueue::should_start_op
//@ret r
//@spec
    ensures old(self).busy() ==> r is None && *final(self) == *old(self),
        !old(self).busy() ==> r == old(self).waiting() && final(self).waiting() is None && final(self).busy() == r.is_some() && final(self).last() == old(self).last()
//@end
//@fn crates/aptos-language-server/src/op_queue.rs OpQueue::op_completed
//@spec
    requires old(self).busy()
    ensures !final(self).busy(), final(self).last() == Some(result), final(self).waiting() == old(self).waiting()
//@end
//@fn crates/aptos-language-server/src/op_queue.rs OpQueue::last_op_result
//@ret r
//@spec
    ensures match r { Some(x) => self.last() == Some(*x), None => self.last() is None }
//@end
//@fn crates/aptos-language-server/src/op_queue.rs OpQueue::op_in_progress
//@ret r
//@spec
    ensures r == self.busy()
//@end
//@fn crates/aptos-language-server/src/op_queue.rs OpQueue::op_requested
//@ret r
//@spec
    ensures r == self.waiting().is_some()
//@end
}
/// everything that happened to a queue: what was asked for, started, finished
pub ghost struct Hist<Args, Output> { pub asked: Seq<(Cause, Args)>, pub started: Seq<(Cause, Args)>, pub done: Seq<Output> }
/// one at a time; nothing waits that was started, nothing asked for last is forgotten; the last result is at hand
pub open spec fn agrees<A, O>(q: OpQueue<A, O>, h: Hist<A, O>) -> bool {
    &&& h.started.len() == h.done.len() + if q.busy() { 1int } else { 0 }
    &&& h.asked.len() == 0 ==> q.waiting() is None
    &&& h.asked.len() > 0 ==> q.waiting() == Some(h.asked.last()) || (q.waiting() is None && h.started.len() > 0 && h.started.last() == h.asked.last())
    &&& q.last() == (if h.done.len() > 0 { Some(h.done.last()) } else { None })
}
/// O01: kept by every operation, from an empty queue on
proof fn theorem_history<A, O>(q: OpQueue<A, O>, n: OpQueue<A, O>, h: Hist<A, O>, c: Cause, a: A, o: O, s: Option<(Cause, A)>)
    requires agrees(q, h)
    ensures
        n.waiting() == Some((c, a)) && n.busy() == q.busy() && n.last() == q.last() ==> agrees(n, Hist { asked: h.asked.push((c, a)), ..h }), // request_op
        !q.busy() && s == q.waiting() && n.waiting() is None && n.busy() == s.is_some() && n.last() == q.last() ==>
            agrees(n, Hist { started: if s is Some { h.started.push(s->0) } else { h.started }, ..h }), // should_start_op
        q.busy() && !n.busy() && n.last() == Some(o) && n.waiting() == q.waiting() ==> agrees(n, Hist { done: h.done.push(o), ..h }), // op_completed
        q.busy() ==> h.started.len() > 0, // what is asked for is started as soon as the queue is free
        !q.busy() && h.asked.len() > 0 && q.waiting() is None ==> h.started.last() == h.asked.last(),
{ }
// ---- the server: packages are loaded through the queue
pub struct LoadPackagesRequest { pub force_reload_package_deps: bool }
pub struct VxPackages { pub id: u64 }
pub struct LoadPackagesResponse { pub packages_from_fs: VxPackages, pub force_reload_package_deps: bool }
pub enum FetchPackagesProgress { Begin, Report(String), End(VxPackages, bool) }
pub enum Progress { Begin, Report, End }
pub struct VxRequest { pub id: u64 }
pub struct VxResponse { pub id: u64 }
pub enum Task { Response(VxResponse), Retry(VxRequest), FetchPackagesProgress(FetchPackagesProgress) }
pub struct GlobalState { pub load_aptos_packages_queue: OpQueue<LoadPackagesRequest, LoadPackagesResponse>, pub scheduled_switch: Option<Cause>,
    pub vfs_sync_in_progress: bool, pub vfs_progress_config_version: u32, pub vfs_config_version: u32 }
impl GlobalState {
    pub open spec fn same_queue(self, o: GlobalState) -> bool { self.load_aptos_packages_queue == o.load_aptos_packages_queue && self.scheduled_switch == o.scheduled_switch }
    #[verifier::external_body] pub fn respond(&mut self, r: VxResponse) ensures final(self).same_queue(*old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn is_completed(&self, r: &VxRequest) -> bool { unimplemented!() }
    #[verifier::external_body] pub fn on_request(&mut self, r: VxRequest) ensures final(self).same_queue(*old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn load_packages_error(&self) -> Option<String> { unimplemented!() }
    #[verifier::external_body] pub fn report_progress(&mut self, t: &str, s: Progress, m: Option<String>, f: Option<f64>, c: Option<String>) ensures final(self).same_queue(*old(self)) { unimplemented!() }
//@fn crates/aptos-language-server/src/main_loop.rs GlobalState::handle_task
//@rewrite? tracing :: error ! ( $$a ) =>> ()
//@rewrite? tracing :: info_span ! ( $$a ) . entered ( ) =>> ()
//@rewrite "loaded aptos packages from fs" . to_owned ( ) =>> vx_format()
//@spec
    requires (task matches Task::FetchPackagesProgress(FetchPackagesProgress::End(_, _))) ==> old(self).load_aptos_packages_queue.busy()
    ensures match task {
        Task::FetchPackagesProgress(FetchPackagesProgress::End(p, f)) => final(self).scheduled_switch is Some && !final(self).load_aptos_packages_queue.busy()
            && final(self).load_aptos_packages_queue.last() == Some(LoadPackagesResponse { packages_from_fs: p, force_reload_package_deps: f })
            && final(self).load_aptos_packages_queue.waiting() == old(self).load_aptos_packages_queue.waiting(),
        _ => final(self).same_queue(*old(self)) }
//@end
//@fn crates/aptos-language-server/src/reload.rs GlobalState::is_project_fully_loaded
//@ret r
//@spec
    ensures r == (!self.vfs_sync_in_progress && !self.load_aptos_packages_queue.busy() && self.vfs_progress_config_version >= self.vfs_config_version)
//@end
}
}
