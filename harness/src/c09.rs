//! A commit completes and drops counterparts exactly, or panics.
use crate::bd::*;
use crate::own::{Own, BACK, CHAIN, MATES, STAFF};

pub fn c09_single() {
  edits::<Bd>(true, &SINGLE, 2, 0);
}
pub fn c09_set_single() {
  edits::<Bd>(true, &SETSINGLE, 2, 0);
}
pub fn c09_peers() {
  edits::<Bd>(true, &PEERS, 2, 0);
}
pub fn c09_list() {
  edits::<Bd>(true, &LIST, 2, 0);
}
pub fn c09_owned() {
  edits::<Bd>(true, &OWNED, 2, 0);
}
pub fn c09_group() {
  edits::<Bd>(true, &GROUP, 2, 0);
}
pub fn c09_set_set() {
  edits::<Bd>(true, &SETSET, 2, 0);
}
pub fn c09_twin() {
  edits::<Bd>(true, &TWIN, 3, 0);
}
pub fn c09_any() {
  ops(true, &[0], false, 0);
}
pub fn c09_any2() {
  ops(true, &[1, 1], false, 0);
}
pub fn c09_some2() {
  ops(true, &[2, 2], false, 0);
}
pub fn c09_single3() {
  edits::<Bd>(true, &SINGLE, 3, 0);
}
pub fn c09_set_single3() {
  edits::<Bd>(true, &SETSINGLE, 3, 0);
}
pub fn c09_owned3() {
  edits::<Bd>(true, &OWNED, 3, 0);
}
pub fn c09_group3() {
  edits::<Bd>(true, &GROUP, 3, 0);
}
pub fn c09_new_single() {
  inserts::<Bd>(true, &SINGLE, 0);
}
pub fn c09_new_sets() {
  inserts::<Bd>(true, &SETSINGLE, 0);
}
pub fn c09_new_list() {
  inserts::<Bd>(true, &LIST, 0);
}
pub fn c09_new_group() {
  inserts::<Bd>(true, &GROUP, 0);
}
pub fn c09_new_owned() {
  inserts::<Bd>(true, &OWNED, 0);
}
pub fn c09_wide() {
  wide(true, 0);
}
pub fn c09_history_sets() {
  history::<Bd>(true, &SETSINGLE, 2, 0);
}
pub fn c09_history_list() {
  history::<Bd>(true, &LIST, 2, 0);
}
pub fn c09_history_group() {
  history::<Bd>(true, &GROUP, 1, 0);
}
pub fn c09_own_staff() {
  edits::<Own>(true, &STAFF, 2, 0);
}
pub fn c09_own_new_staff() {
  inserts::<Own>(true, &STAFF, 0);
}
pub fn c09_own_history_staff() {
  history::<Own>(true, &STAFF, 2, 0);
}
pub fn c09_own_mates() {
  edits::<Own>(true, &MATES, 2, 0);
}
pub fn c09_own_new_mates() {
  inserts::<Own>(true, &MATES, 0);
}
pub fn c09_own_history_mates() {
  history::<Own>(true, &MATES, 2, 0);
}
pub fn c09_own_chain() {
  edits::<Own>(true, &CHAIN, 2, 0);
}
pub fn c09_own_new_chain() {
  inserts::<Own>(true, &CHAIN, 0);
}
pub fn c09_own_history_chain() {
  history::<Own>(true, &CHAIN, 2, 0);
}
pub fn c09_own_back() {
  edits::<Own>(true, &BACK, 2, 0);
}
pub fn c09_own_new_back() {
  inserts::<Own>(true, &BACK, 0);
}
pub fn c09_own_history_back() {
  history::<Own>(true, &BACK, 2, 0);
}
crate::entries! { c09_own_staff, c09_own_new_staff, c09_own_history_staff, c09_own_mates, c09_own_new_mates, c09_own_history_mates, c09_own_chain, c09_own_new_chain, c09_own_history_chain, c09_own_back, c09_own_new_back, c09_own_history_back, c09_history_sets, c09_history_list, c09_history_group, c09_single, c09_set_single, c09_peers, c09_list, c09_owned, c09_group, c09_set_set, c09_twin, c09_any, c09_any2, c09_some2, c09_single3, c09_set_single3, c09_owned3, c09_group3, c09_new_single, c09_new_sets, c09_new_list, c09_new_group, c09_new_owned, c09_wide }
