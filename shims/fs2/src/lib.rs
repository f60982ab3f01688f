use std::fs::File;
use std::io::{Error, Result};
use std::os::fd::AsRawFd;
pub trait FileExt {
  fn try_lock_exclusive(&self) -> Result<()>;
  fn lock_exclusive(&self) -> Result<()>;
  fn try_lock_shared(&self) -> Result<()>;
  fn lock_shared(&self) -> Result<()>;
  fn unlock(&self) -> Result<()>;
}
fn flock(f: &File, op: i32) -> Result<()> {
  if unsafe { libc::flock(f.as_raw_fd(), op) } < 0 { Err(Error::last_os_error()) } else { Ok(()) }
}
impl FileExt for File {
  fn try_lock_exclusive(&self) -> Result<()> { flock(self, libc::LOCK_EX | libc::LOCK_NB) }
  fn lock_exclusive(&self) -> Result<()> { flock(self, libc::LOCK_EX) }
  fn try_lock_shared(&self) -> Result<()> { flock(self, libc::LOCK_SH | libc::LOCK_NB) }
  fn lock_shared(&self) -> Result<()> { flock(self, libc::LOCK_SH) }
  fn unlock(&self) -> Result<()> { flock(self, libc::LOCK_UN) }
}
