use std::sync::Arc;

use crate::error::Result;

pub trait MemoryPool: Send + Sync + std::fmt::Debug {
    fn register(&self, _consumer: &MemoryConsumer) {}
    fn unregister(&self, _consumer: &MemoryConsumer) {}
    fn grow(&self, reservation: &MemoryReservation, additional: usize);
    fn shrink(&self, reservation: &MemoryReservation, shrink: usize);
    fn try_grow(&self, reservation: &MemoryReservation, additional: usize) -> Result<()>;
    fn reserved(&self) -> usize;
}
#[derive(Debug)]
pub struct MemoryConsumer {
    name: String,
    can_spill: bool,
}
impl MemoryConsumer {
    pub fn new(name: impl Into<String>) -> Self {
        Self { name: name.into(), can_spill: false }
    }
    pub fn with_can_spill(self, can_spill: bool) -> Self {
        Self { can_spill, ..self }
    }
    pub fn can_spill(&self) -> bool {
        self.can_spill
    }
    pub fn name(&self) -> &str {
        &self.name
    }
    pub fn register(self, pool: &Arc<dyn MemoryPool>) -> MemoryReservation {
        pool.register(&self);
        MemoryReservation { consumer: self, size: 0, policy: Arc::clone(pool) }
    }
}
#[derive(Debug)]
pub struct MemoryReservation {
    consumer: MemoryConsumer,
    size: usize,
    policy: Arc<dyn MemoryPool>,
}
impl MemoryReservation {
    pub fn size(&self) -> usize {
        self.size
    }
    pub fn free(&mut self) -> usize {
        let size = self.size;
        if size != 0 {
            self.shrink(size)
        }
        size
    }
    pub fn shrink(&mut self, capacity: usize) {
        let new_size = self.size.checked_sub(capacity).unwrap();
        self.policy.shrink(self, capacity);
        self.size = new_size
    }
    pub fn resize(&mut self, capacity: usize) {
        use std::cmp::Ordering::*;
        match capacity.cmp(&self.size) {
            Greater => self.grow(capacity - self.size),
            Less => self.shrink(self.size - capacity),
            _ => {}
        }
    }
    pub fn try_resize(&mut self, capacity: usize) -> Result<()> {
        use std::cmp::Ordering::*;
        match capacity.cmp(&self.size) {
            Greater => self.try_grow(capacity - self.size)?,
            Less => self.shrink(self.size - capacity),
            _ => {}
        };
        Ok(())
    }
    pub fn grow(&mut self, capacity: usize) {
        self.policy.grow(self, capacity);
        self.size += capacity;
    }
    pub fn try_grow(&mut self, capacity: usize) -> Result<()> {
        self.policy.try_grow(self, capacity)?;
        self.size += capacity;
        Ok(())
    }
}
impl Drop for MemoryReservation {
    fn drop(&mut self) {
        self.free();
        self.policy.unregister(&self.consumer);
    }
}
