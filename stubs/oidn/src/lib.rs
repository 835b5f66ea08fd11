use std::sync::Mutex;

/// One call of the denoiser, as received.
#[derive(Clone, Debug, Default)]
pub struct Call {
    pub dims: (usize, usize),
    pub albedo: Vec<f32>,
    pub normal: Vec<f32>,
    pub color: Vec<f32>,
    /// what it was told of its input: gamma corrected, beyond the range of a screen
    pub srgb: bool,
    pub hdr: bool,
}

/// Called at the start of each filtering
#[allow(clippy::type_complexity)]
pub static HOOK: Mutex<Option<std::sync::Arc<dyn Fn() + Send + Sync>>> = Mutex::new(None);
/// The answer is the input with its channels rotated by this many places
pub static ROTATE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
/// What the denoiser answers: 0 success, 1 a device error afterwards, 2 a failing filter.
pub static FAIL: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
pub const DEVICE_ERROR: &str = "stand-in device error";
pub static CALLS: Mutex<Vec<Call>> = Mutex::new(Vec::new());

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Error {
    Unknown,
}

pub struct Device;

impl Device {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Device {
        Device
    }
    pub fn get_error(&self) -> Result<(), (Error, String)> {
        if FAIL.load(std::sync::atomic::Ordering::SeqCst) == 1 {
            return Err((Error::Unknown, DEVICE_ERROR.to_string()));
        }
        Ok(())
    }
}

pub struct RayTracing<'a> {
    _d: &'a Device,
    call: Call,
}

impl<'a> RayTracing<'a> {
    pub fn new(d: &'a Device) -> RayTracing<'a> {
        RayTracing { _d: d, call: Call::default() }
    }
    pub fn image_dimensions(&mut self, w: usize, h: usize) -> &mut RayTracing<'a> {
        self.call.dims = (w, h);
        self
    }
    pub fn albedo_normal(&mut self, a: &[f32], n: &[f32]) -> &mut RayTracing<'a> {
        self.call.albedo = a.to_vec();
        self.call.normal = n.to_vec();
        self
    }
    pub fn albedo(&mut self, a: &[f32]) -> &mut RayTracing<'a> {
        self.call.albedo = a.to_vec();
        self
    }
    pub fn srgb(&mut self, x: bool) -> &mut RayTracing<'a> {
        self.call.srgb = x;
        self
    }
    pub fn hdr(&mut self, x: bool) -> &mut RayTracing<'a> {
        self.call.hdr = x;
        self
    }
    pub fn clean_aux(&mut self, _: bool) -> &mut RayTracing<'a> {
        self
    }
    pub fn filter(&mut self, color: &[f32], output: &mut [f32]) -> Result<(), Error> {
        let hook = HOOK.lock().unwrap().clone();
        if let Some(f) = hook {
            f();
        }
        if FAIL.load(std::sync::atomic::Ordering::SeqCst) == 2 {
            return Err(Error::Unknown);
        }
        self.call.color = color.to_vec();
        let k = ROTATE.load(std::sync::atomic::Ordering::SeqCst);
        for (i, o) in output.iter_mut().enumerate() {
            *o = color[i / 3 * 3 + (i + k) % 3];
        }
        CALLS.lock().unwrap().push(self.call.clone());
        Ok(())
    }
}
