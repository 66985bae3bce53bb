pub fn spawn<F: FnOnce() + Send + 'static>(f: F) { crate::sched::spawn_task(Box::new(f)); }
pub fn sleep(d: std::time::Duration) { crate::sched::sleep_ns(d.as_nanos() as u64); }
