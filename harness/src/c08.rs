//! Declared pairs of links are symmetric after every commit.
use crate::bd::*;
use crate::own::{Own, BACK, CHAIN, MATES, STAFF};

pub fn c08_single() {
  edits::<Bd>(false, &SINGLE, 2, 0);
}
pub fn c08_set_single() {
  edits::<Bd>(false, &SETSINGLE, 2, 0);
}
pub fn c08_peers() {
  edits::<Bd>(false, &PEERS, 2, 0);
}
pub fn c08_list() {
  edits::<Bd>(false, &LIST, 2, 0);
}
pub fn c08_owned() {
  edits::<Bd>(false, &OWNED, 2, 0);
}
pub fn c08_group() {
  edits::<Bd>(false, &GROUP, 2, 0);
}
pub fn c08_set_set() {
  edits::<Bd>(false, &SETSET, 2, 0);
}
pub fn c08_twin() {
  edits::<Bd>(false, &TWIN, 2, 0);
}
pub fn c08_single3() {
  edits::<Bd>(false, &SINGLE, 3, 0);
}
pub fn c08_list3() {
  edits::<Bd>(false, &LIST, 3, 0);
}
pub fn c08_group3() {
  edits::<Bd>(false, &GROUP, 3, 0);
}
pub fn c08_any() {
  ops(false, &[0], false, 0);
}
pub fn c08_some2() {
  ops(false, &[2, 2], false, 0);
}
pub fn c08_any2() {
  ops(false, &[1, 1], false, 0);
}
pub fn c08_commits() {
  ops(false, &[2, 2], true, 0);
}
pub fn c08_commits3() {
  ops(false, &[2, 2, 2], true, 0);
}
pub fn c08_history_single() {
  history::<Bd>(false, &SINGLE, 3, 0);
}
pub fn c08_history_sets() {
  history::<Bd>(false, &SETSINGLE, 2, 0);
}
pub fn c08_history_peers() {
  history::<Bd>(false, &PEERS, 2, 0);
}
pub fn c08_history_list() {
  history::<Bd>(false, &LIST, 2, 0);
}
pub fn c08_history_owned() {
  history::<Bd>(false, &OWNED, 2, 0);
}
pub fn c08_history_group() {
  history::<Bd>(false, &GROUP, 1, 0);
}
pub fn c08_history_set_set() {
  history::<Bd>(false, &SETSET, 2, 0);
}
pub fn c08_new_single() {
  inserts::<Bd>(false, &SINGLE, 0);
}
pub fn c08_new_sets() {
  inserts::<Bd>(false, &SETSINGLE, 0);
}
pub fn c08_new_list() {
  inserts::<Bd>(false, &LIST, 0);
}
pub fn c08_new_group() {
  inserts::<Bd>(false, &GROUP, 0);
}
pub fn c08_new_owned() {
  inserts::<Bd>(false, &OWNED, 0);
}
pub fn c08_wide() {
  wide(false, 0);
}
pub fn c08_long_sets() {
  history::<Bd>(false, &SETSINGLE, 3, 0);
}
pub fn c08_long_list() {
  history::<Bd>(false, &LIST, 3, 0);
}
pub fn c08_long_owned() {
  history::<Bd>(false, &OWNED, 3, 0);
}
pub fn c08_long_group() {
  history::<Bd>(false, &GROUP, 2, 0);
}
pub fn c08_own_staff() {
  edits::<Own>(false, &STAFF, 2, 0);
}
pub fn c08_own_new_staff() {
  inserts::<Own>(false, &STAFF, 0);
}
pub fn c08_own_history_staff() {
  history::<Own>(false, &STAFF, 2, 0);
}
pub fn c08_own_mates() {
  edits::<Own>(false, &MATES, 2, 0);
}
pub fn c08_own_new_mates() {
  inserts::<Own>(false, &MATES, 0);
}
pub fn c08_own_history_mates() {
  history::<Own>(false, &MATES, 2, 0);
}
pub fn c08_own_chain() {
  edits::<Own>(false, &CHAIN, 2, 0);
}
pub fn c08_own_new_chain() {
  inserts::<Own>(false, &CHAIN, 0);
}
pub fn c08_own_history_chain() {
  history::<Own>(false, &CHAIN, 2, 0);
}
pub fn c08_own_back() {
  edits::<Own>(false, &BACK, 2, 0);
}
pub fn c08_own_new_back() {
  inserts::<Own>(false, &BACK, 0);
}
pub fn c08_own_history_back() {
  history::<Own>(false, &BACK, 2, 0);
}
pub fn c08_lost_single() {
  lost::<Bd>(false, &SINGLE, 0);
}
pub fn c08_lost_sets() {
  lost::<Bd>(false, &SETSINGLE, 0);
}
pub fn c08_lost_list() {
  lost::<Bd>(false, &LIST, 0);
}
pub fn c08_lost_group() {
  lost::<Bd>(false, &GROUP, 0);
}
pub fn c08_lost_owned() {
  lost::<Bd>(false, &OWNED, 0);
}
pub fn c08_lost_staff() {
  lost::<Own>(false, &STAFF, 0);
}
pub fn c08_lost_back() {
  lost::<Own>(false, &BACK, 0);
}
crate::entries! { c08_lost_list, c08_lost_group, c08_lost_owned, c08_lost_staff, c08_lost_back, c08_lost_single, c08_lost_sets, c08_own_staff, c08_own_new_staff, c08_own_history_staff, c08_own_mates, c08_own_new_mates, c08_own_history_mates, c08_own_chain, c08_own_new_chain, c08_own_history_chain, c08_own_back, c08_own_new_back, c08_own_history_back, c08_long_sets, c08_long_list, c08_long_owned, c08_long_group,  c08_single, c08_set_single, c08_peers, c08_list, c08_owned, c08_group, c08_set_set, c08_twin, c08_single3, c08_list3, c08_group3, c08_any, c08_some2, c08_any2, c08_commits, c08_commits3, c08_history_single, c08_history_sets, c08_history_peers, c08_history_list, c08_history_owned, c08_history_group, c08_history_set_set, c08_new_single, c08_new_sets, c08_new_list, c08_new_group, c08_new_owned, c08_wide }
