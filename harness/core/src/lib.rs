//! C-ABI entry points over ezk-image's public API; executed symbolically from LLVM IR and natively for replay.
#![allow(clippy::missing_safety_doc)]
use ezk_image::*;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Color {
    pub kind: u32, // 0 RGB, 1 YUV
    pub transfer: u32,
    pub primaries: u32,
    pub space: u32,
    pub full: u32,
}

#[repr(C)]
pub struct Desc {
    pub fmt: u32,
    /// 0: own ImageRef implementation (no construction checks), 1: Image::from_planes, 2: Image::from_buffer(planes[0])
    pub ctor: u32,
    pub nplanes: u32,
    /// strides passed explicitly (count) or !0 = None
    pub nstrides: u32,
    pub planes: [*mut u8; 4],
    pub lens: [usize; 4],
    pub strides: [usize; 4],
    pub width: usize,
    pub height: usize,
    pub color: Color,
    /// number of nested crop windows (0..=2)
    pub ncrop: u32,
    pub win: [[usize; 4]; 2],
}

pub fn fmt(i: u32) -> PixelFormat {
    use PixelFormat::*;
    match i {
        0 => I420,
        1 => I422,
        2 => I444,
        3 => I010,
        4 => I012,
        5 => I210,
        6 => I212,
        7 => I410,
        8 => I412,
        9 => NV12,
        10 => YUYV,
        11 => RGBA,
        12 => BGRA,
        13 => RGB,
        14 => BGR,
        _ => loop {},
    }
}

pub fn transfer(i: u32) -> ColorTransfer {
    use ColorTransfer::*;
    match i {
        0 => Linear,
        1 => Gamma22,
        2 => Gamma28,
        3 => SRGB,
        4 => SDR,
        5 => BT2100PQ,
        6 => BT2100HLG,
        _ => loop {},
    }
}

pub fn primaries(i: u32) -> ColorPrimaries {
    use ColorPrimaries::*;
    match i {
        0 => ST240,
        1 => BT709,
        2 => BT2020,
        _ => loop {},
    }
}

pub fn space(i: u32) -> ColorSpace {
    use ColorSpace::*;
    match i {
        0 => BT601,
        1 => BT709,
        2 => BT2020,
        3 => ICtCpPQ,
        4 => ICtCpHLG,
        _ => loop {},
    }
}

pub fn color(c: &Color) -> ColorInfo {
    if c.kind == 0 {
        ColorInfo::RGB(RgbColorInfo {
            transfer: transfer(c.transfer),
            primaries: primaries(c.primaries),
        })
    } else {
        ColorInfo::YUV(YuvColorInfo {
            transfer: transfer(c.transfer),
            primaries: primaries(c.primaries),
            space: space(c.space),
            full_range: c.full != 0,
        })
    }
}

/// A user-written image: hands out the planes as they are.
struct Raw<'a>(&'a Desc);

unsafe impl ImageRef for Raw<'_> {
    fn format(&self) -> PixelFormat {
        fmt(self.0.fmt)
    }
    fn width(&self) -> usize {
        self.0.width
    }
    fn height(&self) -> usize {
        self.0.height
    }
    fn planes(&self) -> Box<dyn Iterator<Item = (&[u8], usize)> + '_> {
        Box::new((0..self.0.nplanes as usize).map(move |i| unsafe {
            (
                std::slice::from_raw_parts(self.0.planes[i] as *const u8, self.0.lens[i]),
                self.0.strides[i],
            )
        }))
    }
    fn color(&self) -> ColorInfo {
        color(&self.0.color)
    }
}

unsafe impl ImageMut for Raw<'_> {
    fn planes_mut(&mut self) -> Box<dyn Iterator<Item = (&mut [u8], usize)> + '_> {
        Box::new((0..self.0.nplanes as usize).map(move |i| unsafe {
            (
                std::slice::from_raw_parts_mut(self.0.planes[i], self.0.lens[i]),
                self.0.strides[i],
            )
        }))
    }
}

pub const OK: u32 = 0;

fn bounds_code(e: &BoundsCheckError) -> u32 {
    match e {
        BoundsCheckError::InvalidNumberOfPlanes(_) => 1,
        BoundsCheckError::InvalidStride { .. } => 2,
        BoundsCheckError::InvalidPlaneSize { .. } => 3,
    }
}

fn image_code(e: &ImageError) -> u32 {
    match e {
        ImageError::InvalidDimensions => 10,
        ImageError::BoundsCheck(b) => 10 + bounds_code(b),
    }
}

fn crop_code(e: &CropError) -> u32 {
    match e {
        CropError::WindowSizeOutOfBounds => 20,
        CropError::BoundsCheck(b) => 20 + bounds_code(b),
    }
}

fn convert_code(e: &ConvertError) -> u32 {
    match e {
        ConvertError::OddImageDimensions => 30,
        ConvertError::MismatchedImageSize => 34,
        ConvertError::InvalidColorInfo => 35,
        ConvertError::BoundsCheck(b) => 30 + bounds_code(b),
        ConvertError::InvalidNumberOfPlanes(_) => 31,
    }
}

fn window(w: &[usize; 4]) -> Window {
    Window { x: w[0], y: w[1], width: w[2], height: w[3] }
}

fn crop_then<I: ImageRef>(d: &Desc, img: I, f: &mut dyn FnMut(&dyn ImageRef) -> u32) -> u32 {
    match d.ncrop {
        0 => f(&img),
        1 => match img.crop(window(&d.win[0])) {
            Err(e) => crop_code(&e),
            Ok(c) => f(&c),
        },
        _ => match img.crop(window(&d.win[0])) {
            Err(e) => crop_code(&e),
            Ok(c) => match c.crop(window(&d.win[1])) {
                Err(e) => crop_code(&e),
                Ok(c) => f(&c),
            },
        },
    }
}

fn crop_then_mut<I: ImageMut>(d: &Desc, mut img: I, f: &mut dyn FnMut(&mut dyn ImageMut) -> u32) -> u32 {
    match d.ncrop {
        0 => f(&mut img),
        1 => match img.crop(window(&d.win[0])) {
            Err(e) => crop_code(&e),
            Ok(mut c) => f(&mut c),
        },
        _ => match img.crop(window(&d.win[0])) {
            Err(e) => crop_code(&e),
            Ok(c) => match c.crop(window(&d.win[1])) {
                Err(e) => crop_code(&e),
                Ok(mut c) => f(&mut c),
            },
        },
    }
}

/// how the image is handed over: 0 by value, 1 by shared reference, 2 by mutable reference, 3 cropped and unwrapped again
fn hand<I: ImageRef>(d: &Desc, mut img: I, f: &mut dyn FnMut(&dyn ImageRef) -> u32) -> u32 {
    match d.ctor >> 8 {
        0 => crop_then(d, img, f),
        1 => crop_then(d, &img, f),
        2 => crop_then(d, &mut img, f),
        _ => match img.crop(window(&d.win[0])) {
            Err(e) => crop_code(&e),
            Ok(c) => f(&c.into_inner()),
        },
    }
}

fn hand_mut<I: ImageMut>(d: &Desc, mut img: I, f: &mut dyn FnMut(&mut dyn ImageMut) -> u32) -> u32 {
    match d.ctor >> 8 {
        0 => crop_then_mut(d, img, f),
        1 | 2 => crop_then_mut(d, &mut img, f),
        _ => match img.crop(window(&d.win[0])) {
            Err(e) => crop_code(&e),
            Ok(c) => f(&mut c.into_inner()),
        },
    }
}

unsafe fn strides_of(d: &Desc) -> Option<Vec<usize>> {
    if d.nstrides == u32::MAX {
        None
    } else {
        Some(d.strides[..d.nstrides as usize].to_vec())
    }
}

unsafe fn with_src(d: &Desc, f: &mut dyn FnMut(&dyn ImageRef) -> u32) -> u32 {
    match d.ctor & 0xFF {
        0 => hand(d, Raw(d), f),
        1 => {
            let planes: Vec<&[u8]> = (0..d.nplanes as usize)
                .map(|i| std::slice::from_raw_parts(d.planes[i] as *const u8, d.lens[i]))
                .collect();
            match Image::from_planes(fmt(d.fmt), planes, strides_of(d), d.width, d.height, color(&d.color)) {
                Err(e) => image_code(&e),
                Ok(i) => hand(d, i, f),
            }
        }
        _ => {
            let buf = std::slice::from_raw_parts(d.planes[0] as *const u8, d.lens[0]);
            match Image::from_buffer(fmt(d.fmt), buf, strides_of(d), d.width, d.height, color(&d.color)) {
                Err(e) => image_code(&e),
                Ok(i) => hand(d, i, f),
            }
        }
    }
}

unsafe fn with_dst(d: &Desc, f: &mut dyn FnMut(&mut dyn ImageMut) -> u32) -> u32 {
    match d.ctor & 0xFF {
        0 => hand_mut(d, Raw(d), f),
        1 => {
            let planes: Vec<&mut [u8]> = (0..d.nplanes as usize)
                .map(|i| std::slice::from_raw_parts_mut(d.planes[i], d.lens[i]))
                .collect();
            match Image::from_planes(fmt(d.fmt), planes, strides_of(d), d.width, d.height, color(&d.color)) {
                Err(e) => image_code(&e),
                Ok(i) => hand_mut(d, i, f),
            }
        }
        _ => {
            let buf = std::slice::from_raw_parts_mut(d.planes[0], d.lens[0]);
            match Image::from_buffer(fmt(d.fmt), buf, strides_of(d), d.width, d.height, color(&d.color)) {
                Err(e) => image_code(&e),
                Ok(i) => hand_mut(d, i, f),
            }
        }
    }
}

/// alg 0: nearest, 1: nearest with a resizer that was used before, 2: convolution, 3: interpolation, 4: super sampling, 5: Lanczos
#[cfg(feature = "resize")]
fn resize(alg: u32, s: &dyn ImageRef, d: &mut dyn ImageMut) -> u32 {
    use ezk_image::resize::{FilterType, ResizeAlg, Resizer};
    let mut r = Resizer::new(match alg {
        0 | 1 => ResizeAlg::Nearest,
        2 => ResizeAlg::Convolution(FilterType::Bilinear),
        3 => ResizeAlg::Interpolation(FilterType::Bilinear),
        4 => ResizeAlg::SuperSampling(FilterType::Box, 2),
        _ => ResizeAlg::Convolution(FilterType::Lanczos3),
    });
    if alg == 1 {
        let c: ColorInfo = RgbColorInfo { transfer: ColorTransfer::SRGB, primaries: ColorPrimaries::BT709 }.into();
        let (a, mut b) = ([0u8; 12], [0u8; 24]);
        let a = Image::from_planes(PixelFormat::RGB, vec![&a[..]], None, 2, 2, c).unwrap();
        let mut b = Image::from_planes(PixelFormat::RGB, vec![&mut b[..]], None, 4, 2, c).unwrap();
        let _ = r.resize(&a, &mut b);
    }
    match r.resize(s, d) {
        Ok(()) => OK,
        Err(_) => 40,
    }
}

/// op 0: convert, 1: convert_multi_thread, 2: copy, 3.. resize.
/// Result: code of the operation; src construction errors +100, dst construction errors +200.
#[no_mangle]
pub unsafe extern "C" fn vp_run(src: *const Desc, dst: *const Desc, op: u32, threads: usize, order: usize) -> u32 {
    num_cpus::set(threads);
    rayon::set_order(order);
    rayon::set_threads(threads);
    let mut ran = false;
    let r = with_src(&*src, &mut |s| {
        ran = true;
        let mut ran2 = false;
        let r = with_dst(&*dst, &mut |d| {
            ran2 = true;
            let r = match op {
                0 => convert(s, d),
                1 => convert_multi_thread(s, d),
                #[cfg(feature = "resize")]
                3.. => return resize(op - 3, s, d),
                _ => copy(s, d),
            };
            match r {
                Ok(()) => OK,
                Err(e) => convert_code(&e),
            }
        });
        if ran2 {
            r
        } else {
            200 + r
        }
    });
    if ran {
        r
    } else {
        100 + r
    }
}

/// Build the image (and its crops); report every plane that it exposes.
#[no_mangle]
pub unsafe extern "C" fn vp_planes(d: *const Desc, out: *mut [usize; 3], nout: *mut usize, mutable: u32) -> u32 {
    let mut n = 0;
    let r = if mutable == 0 {
        with_src(&*d, &mut |s| {
            for (p, st) in s.planes() {
                *out.add(n) = [p.as_ptr() as usize, p.len(), st];
                n += 1;
            }
            OK
        })
    } else {
        with_dst(&*d, &mut |s| {
            for (p, st) in s.planes_mut() {
                *out.add(n) = [p.as_ptr() as usize, p.len(), st];
                n += 1;
            }
            OK
        })
    };
    *nout = n;
    r
}

/// width, height, bounds_check() of the (cropped) image
#[no_mangle]
pub unsafe extern "C" fn vp_info(d: *const Desc, out: *mut [usize; 3]) -> u32 {
    with_src(&*d, &mut |s| {
        let b = match s.bounds_check() {
            Ok(()) => 0,
            Err(e) => bounds_code(&e) as usize,
        };
        *out = [s.width(), s.height(), b];
        OK
    })
}

/// PixelFormat::bounds_check; on error the details go to `out`
#[no_mangle]
pub unsafe extern "C" fn vp_bounds_check(d: *const Desc, out: *mut [usize; 3]) -> u32 {
    let d = &*d;
    let planes = (0..d.nplanes as usize)
        .map(|i| (std::slice::from_raw_parts(d.planes[i] as *const u8, d.lens[i]), d.strides[i]));
    match fmt(d.fmt).bounds_check(planes, d.width, d.height) {
        Ok(()) => OK,
        Err(e) => {
            let o = match &e {
                BoundsCheckError::InvalidNumberOfPlanes(e) => [0, e.expected, e.got],
                BoundsCheckError::InvalidStride { plane, minimum, got } => [*plane, *minimum, *got],
                BoundsCheckError::InvalidPlaneSize { plane, minimum, got } => [*plane, *minimum, *got],
            };
            *out = o;
            bounds_code(&e)
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn vp_buffer_size(f: u32, w: usize, h: usize) -> usize {
    fmt(f).buffer_size(w, h)
}

#[no_mangle]
pub unsafe extern "C" fn vp_packed_strides(f: u32, w: usize, out: *mut usize) -> usize {
    let v = fmt(f).packed_strides(w);
    for (i, x) in v.iter().enumerate() {
        *out.add(i) = *x
    }
    v.len()
}

#[no_mangle]
pub unsafe extern "C" fn vp_bits(f: u32) -> usize {
    fmt(f).bits_per_component()
}

#[no_mangle]
pub unsafe extern "C" fn vp_variants(out: *mut u32) -> usize {
    let mut n = 0;
    for v in PixelFormat::variants() {
        *out.add(n) = v as u32;
        n += 1;
    }
    n
}

/// infer / infer_xxx on an immutable or mutable slice
#[no_mangle]
pub unsafe extern "C" fn vp_infer(f: u32, buf: *mut u8, len: usize, w: usize, h: usize, strides: *const usize, nstrides: usize, mode: u32, out: *mut [usize; 2]) -> usize {
    let st: &[usize];
    let st = if nstrides == usize::MAX {
        None
    } else {
        st = std::slice::from_raw_parts(strides, nstrides);
        Some(st)
    };
    let mut n = 0;
    let mut put = |p: *const u8, l: usize| {
        *out.add(n) = [p as usize, l];
        n += 1;
    };
    let s = std::slice::from_raw_parts(buf as *const u8, len);
    match mode {
        0 => {
            for p in infer(fmt(f), s, w, h, st) {
                put(p.as_ptr(), p.len())
            }
        }
        1 => {
            for p in infer(fmt(f), std::slice::from_raw_parts_mut(buf, len), w, h, st) {
                put(p.as_ptr(), p.len())
            }
        }
        _ => {
            use PixelFormat::*;
            match fmt(f) {
                I420 => infer_i420(s, w, h, st).iter().for_each(|p| put(p.as_ptr(), p.len())),
                I422 => infer_i422(s, w, h, st).iter().for_each(|p| put(p.as_ptr(), p.len())),
                I444 => infer_i444(s, w, h, st).iter().for_each(|p| put(p.as_ptr(), p.len())),
                I010 | I012 => infer_i01x(s, w, h, st).iter().for_each(|p| put(p.as_ptr(), p.len())),
                I210 | I212 => infer_i21x(s, w, h, st).iter().for_each(|p| put(p.as_ptr(), p.len())),
                I410 | I412 => infer_i41x(s, w, h, st).iter().for_each(|p| put(p.as_ptr(), p.len())),
                NV12 => infer_nv12(s, w, h, st).iter().for_each(|p| put(p.as_ptr(), p.len())),
                _ => {}
            }
        }
    }
    n
}

fn color_words(c: ColorInfo) -> [usize; 5] {
    let find = |n: u32, f: &dyn Fn(u32) -> bool| (0..n).find(|i| f(*i)).unwrap_or(99) as usize;
    let t = find(7, &|i| transfer(i) == c.transfer());
    let p = find(3, &|i| primaries(i) == c.primaries());
    match c {
        ColorInfo::RGB(_) => [0, t, p, 0, 0],
        ColorInfo::YUV(y) => [1, find(7, &|i| transfer(i) == y.transfer), find(3, &|i| primaries(i) == y.primaries), find(5, &|i| space(i) == y.space), y.full_range as usize],
    }
}

unsafe fn head(s: &dyn ImageRef, out: *mut usize) {
    *out = s.format() as usize;
    *out.add(1) = s.width();
    *out.add(2) = s.height();
    for (i, c) in color_words(s.color()).iter().enumerate() {
        *out.add(3 + i) = *c;
    }
}

/// everything an image says about itself: format, width, height, colour (5 words), number of planes, (start, length, stride)..
/// which 0: planes() of the shared image, 1: planes_mut(), 2: planes() of the mutable image
#[no_mangle]
pub unsafe extern "C" fn vp_view(d: *const Desc, which: u32, out: *mut usize) -> u32 {
    let mut n = 0;
    let mut put = |p: *const u8, l: usize, st: usize| {
        *out.add(9 + 3 * n) = p as usize;
        *out.add(10 + 3 * n) = l;
        *out.add(11 + 3 * n) = st;
        n += 1;
        *out.add(8) = n;
    };
    match which {
        0 => with_src(&*d, &mut |s| {
            head(s, out);
            s.planes().for_each(|(p, st)| put(p.as_ptr(), p.len(), st));
            OK
        }),
        1 => with_dst(&*d, &mut |s| {
            head(s, out);
            s.planes_mut().for_each(|(p, st)| put(p.as_ptr(), p.len(), st));
            OK
        }),
        _ => with_dst(&*d, &mut |s| {
            head(s, out);
            s.planes().for_each(|(p, st)| put(p.as_ptr(), p.len(), st));
            OK
        }),
    }
}

/// Image::blank: everything it says about itself (starts relative to the first plane), the result of its bounds check,
/// and (touch != 0) the union of all its bytes
#[no_mangle]
pub unsafe extern "C" fn vp_blank(f: u32, w: usize, h: usize, c: *const Color, touch: u32, out: *mut usize) -> u32 {
    let img = Image::blank(fmt(f), w, h, color(&*c));
    head(&img, out);
    let mut n = 0;
    let mut acc = 0u32;
    let mut base = 0;
    for (p, st) in img.planes() {
        if n == 0 {
            base = p.as_ptr() as usize;
        }
        *out.add(9 + 3 * n) = p.as_ptr() as usize - base;
        *out.add(10 + 3 * n) = p.len();
        *out.add(11 + 3 * n) = st;
        n += 1;
        if touch != 0 {
            for b in p {
                acc |= *b as u32
            }
        }
    }
    *out.add(8) = n;
    match img.bounds_check() {
        Ok(()) => acc << 8,
        Err(e) => bounds_code(&e) | (acc << 8),
    }
}

#[no_mangle]
pub unsafe extern "C" fn vp_linear_to_scaled(t: u32, x: f32) -> f32 {
    transfer(t).linear_to_scaled(x)
}

#[no_mangle]
pub unsafe extern "C" fn vp_scaled_to_linear(t: u32, x: f32) -> f32 {
    transfer(t).scaled_to_linear(x)
}

#[no_mangle]
pub unsafe extern "C" fn vp_matrix(p: u32, inverse: u32, out: *mut [[f32; 3]; 3]) {
    *out = *if inverse == 0 { primaries(p).rgb_to_xyz_mat() } else { primaries(p).xyz_to_rgb_mat() };
}
