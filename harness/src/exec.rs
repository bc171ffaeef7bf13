//! Calls of the library.
use dcv_color_primitives as dcp;
use dcp::{ColorSpace, ErrorKind, ImageFormat, PixelFormat};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const PFS: [PixelFormat; 9] = [
    PixelFormat::Argb, PixelFormat::Bgra, PixelFormat::Bgr, PixelFormat::Rgba, PixelFormat::Rgb,
    PixelFormat::I444, PixelFormat::I422, PixelFormat::I420, PixelFormat::Nv12,
];
pub const CSS: [ColorSpace; 5] = [
    ColorSpace::Rgb, ColorSpace::Bt601, ColorSpace::Bt709, ColorSpace::Bt601FR, ColorSpace::Bt709FR,
];

/// A value of the enumeration by the name the specification gives it
pub fn pf_by_name(n: &str) -> PixelFormat {
    match n {
        "argb" => PixelFormat::Argb,
        "bgra" => PixelFormat::Bgra,
        "bgr" => PixelFormat::Bgr,
        "rgba" => PixelFormat::Rgba,
        "rgb" => PixelFormat::Rgb,
        "i444" => PixelFormat::I444,
        "i422" => PixelFormat::I422,
        "i420" => PixelFormat::I420,
        "nv12" => PixelFormat::Nv12,
        _ => panic!("pixel format {n}"),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Out {
    Ok,
    InvalidValue,
    InvalidOperation,
    NotEnoughData,
    Panic,
    /// C only: neither success nor a published error
    Garbage,
}

impl Out {
    pub fn name(self) -> &'static str {
        match self {
            Out::Ok => "ok",
            Out::InvalidValue => "invalid_value",
            Out::InvalidOperation => "invalid_operation",
            Out::NotEnoughData => "not_enough_data",
            Out::Panic => "panic",
            Out::Garbage => "garbage",
        }
    }
    pub fn by_number(n: u8) -> Out {
        [Out::Ok, Out::InvalidValue, Out::InvalidOperation, Out::NotEnoughData, Out::Panic, Out::Garbage][n as usize]
    }
    pub fn by_name(n: &str) -> Out {
        match n {
            "ok" => Out::Ok,
            "invalid_value" => Out::InvalidValue,
            "invalid_operation" => Out::InvalidOperation,
            "not_enough_data" => Out::NotEnoughData,
            _ => panic!("outcome {n}"),
        }
    }
}

fn out(r: std::thread::Result<Result<(), ErrorKind>>) -> Out {
    match r {
        Ok(Ok(())) => Out::Ok,
        Ok(Err(ErrorKind::InvalidValue)) => Out::InvalidValue,
        Ok(Err(ErrorKind::InvalidOperation)) => Out::InvalidOperation,
        Ok(Err(ErrorKind::NotEnoughData)) => Out::NotEnoughData,
        Err(_) => Out::Panic,
    }
}

/// One side of a conversion
#[derive(Clone, Debug)]
pub struct Side {
    pub pf: u32,
    pub cs: u32,
    pub np: u32,
    pub strides: Option<Vec<usize>>,
    pub bufs: Vec<(*mut u8, usize)>,
}

impl Side {
    fn format(&self) -> ImageFormat {
        ImageFormat {
            pixel_format: PFS[self.pf as usize],
            color_space: CSS[self.cs as usize],
            num_planes: self.np,
        }
    }
    pub fn json(&self) -> String {
        let lens: Vec<usize> = self.bufs.iter().map(|b| b.1).collect();
        format!("{{\"pf\":{},\"cs\":{},\"np\":{},\"strides\":{},\"lens\":{:?}}}", self.pf, self.cs, self.np,
                self.strides.as_ref().map_or("null".into(), |s| format!("{s:?}")), lens)
    }
}

pub fn convert(w: u32, h: u32, src: &Side, dst: &Side) -> Out {
    let sb: Vec<&[u8]> = src.bufs.iter().map(|b| unsafe { std::slice::from_raw_parts(b.0, b.1) }).collect();
    let mut db: Vec<&mut [u8]> =
        dst.bufs.iter().map(|b| unsafe { std::slice::from_raw_parts_mut(b.0, b.1) }).collect();
    out(catch_unwind(AssertUnwindSafe(|| {
        dcp::convert_image(w, h, &src.format(), src.strides.as_deref(), &sb, &dst.format(),
                           dst.strides.as_deref(), &mut db)
    })))
}

pub fn sizes(w: u32, h: u32, pf: u32, cs: u32, np: u32, strides: Option<&[usize]>, sizes: &mut [usize]) -> Out {
    let f = ImageFormat { pixel_format: PFS[pf as usize], color_space: CSS[cs as usize], num_planes: np };
    out(catch_unwind(AssertUnwindSafe(|| dcp::get_buffers_size(w, h, &f, strides, sizes))))
}

pub fn describe() -> String {
    catch_unwind(dcp::describe_acceleration).unwrap_or_else(|_| "(panic)".into())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Isa {
    Default,
    X86,
    Sse2,
    Avx2,
}

impl Isa {
    pub fn name(self) -> &'static str {
        match self {
            Isa::Default => "default",
            Isa::X86 => "x86",
            Isa::Sse2 => "sse2",
            Isa::Avx2 => "avx2",
        }
    }
    pub fn select(self) {
        #[cfg(feature = "isa")]
        match self {
            Isa::Default => {}
            _ => dcp::initialize_with_instruction_set(self.name()),
        }
    }
}

/// The instruction sets whose implementation can be called here
pub fn isas() -> Vec<Isa> {
    if cfg!(feature = "isa") {
        let d = dcp::describe_acceleration();
        if d.contains("Avx2") {
            vec![Isa::X86, Isa::Sse2, Isa::Avx2]
        } else if d.contains("Sse2") {
            vec![Isa::X86, Isa::Sse2]
        } else {
            vec![Isa::X86]
        }
    } else {
        vec![Isa::Default]
    }
}

#[cfg(not(feature = "isa"))]
pub mod c {
    //! The C interface, called from C (shim.c)
    use super::Out;
    use std::ffi::CString;
    use std::os::raw::{c_char, c_int};

    #[repr(C)]
    #[derive(Clone, Copy, Debug)]
    pub struct CDesc {
        pub pf: u32,
        pub cs: u32,
        pub np: u32,
    }

    extern "C" {
        fn shim_format(name: *const c_char) -> c_int;
        fn shim_space(name: *const c_char) -> c_int;
        fn shim_error(name: *const c_char) -> c_int;
        fn shim_ok() -> c_int;
        fn shim_stride_auto() -> usize;
        fn shim_convert(w: u32, h: u32, sd: *const CDesc, ss: *const usize, sb: *const *const u8,
                        dd: *const CDesc, ds: *const usize, db: *const *mut u8, error: *mut i32) -> c_int;
        fn shim_sizes(w: u32, h: u32, d: *const CDesc, strides: *const usize, sizes: *mut usize,
                      error: *mut i32) -> c_int;
        fn shim_build(d: *const CDesc, out: *mut u8, room: usize) -> usize;
        pub fn shim_convert_at(w: u32, h: u32, sd: *const u8, ss: *const usize, sb: *const *const u8,
                               dd: *const u8, ds: *const usize, db: *const *mut u8, error: *mut i32) -> c_int;
        pub fn shim_sizes_at(w: u32, h: u32, d: *const u8, strides: *const usize, sizes: *mut usize, error: *mut i32) -> c_int;
        fn shim_describe() -> *mut c_char;
        fn shim_unref(s: *mut c_char);
    }

    // the library's symbols are wanted by the shim only
    #[used]
    static KEEP: [unsafe extern "C" fn(*mut c_char); 1] = [dcv_color_primitives::c_api::dcp_unref_string];
    #[used]
    static KEEP2: extern "C" fn() -> *mut c_char = dcv_color_primitives::c_api::dcp_describe_acceleration;

    pub fn number(kind: &str, name: &str) -> i32 {
        let s = CString::new(name).unwrap();
        unsafe {
            match kind {
                "format" => shim_format(s.as_ptr()),
                "space" => shim_space(s.as_ptr()),
                "error" => shim_error(s.as_ptr()),
                _ => panic!(),
            }
        }
    }
    pub fn stride_auto() -> usize {
        unsafe { shim_stride_auto() }
    }

    /// A description as C has it in memory
    pub fn build(d: &CDesc) -> Vec<u8> {
        let mut v = vec![0; 64];
        let n = unsafe { shim_build(d, v.as_mut_ptr(), v.len()) };
        assert!(n > 0);
        v.truncate(n);
        v
    }

    pub const UNTOUCHED: i32 = 0x5a5a_5a5a;

    /// Outcome of a C call, and whether the error location was used as it must be
    pub fn outcome(ret: c_int, error: Option<i32>) -> (Out, bool) {
        let ok = unsafe { shim_ok() };
        if ret == ok {
            return (Out::Ok, error.is_none_or(|e| e == UNTOUCHED));
        }
        if ret != 1 - ok && ret != ok + 1 {
            return (Out::Garbage, false);
        }
        match error {
            None => (Out::Garbage, true), // a failure of unknown kind
            Some(e) => {
                for n in ["invalid_value", "invalid_operation", "not_enough_data"] {
                    if number("error", n) == e {
                        return (Out::by_name(n), true);
                    }
                }
                (Out::Garbage, false)
            }
        }
    }

    pub unsafe fn convert(w: u32, h: u32, sd: *const CDesc, ss: *const usize, sb: *const *const u8,
                          dd: *const CDesc, ds: *const usize, db: *const *mut u8, error: Option<&mut i32>) -> c_int {
        shim_convert(w, h, sd, ss, sb, dd, ds, db, error.map_or(std::ptr::null_mut(), |e| e))
    }
    pub unsafe fn sizes(w: u32, h: u32, d: *const CDesc, strides: *const usize, sizes: *mut usize,
                        error: Option<&mut i32>) -> c_int {
        shim_sizes(w, h, d, strides, sizes, error.map_or(std::ptr::null_mut(), |e| e))
    }
    pub fn describe() -> *mut c_char {
        unsafe { shim_describe() }
    }
    pub unsafe fn unref(s: *mut c_char) {
        shim_unref(s)
    }
}
