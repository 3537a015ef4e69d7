seed("p01-u8-store", "P01", "src/vector/avx2.rs",
"        ptr.cast::<[u8; 8]>().write_unaligned(f32x8_to_u8x8(self))",
"""        // Store the whole register, the next block overwrites the upper half
        let v = f32x8_to_u8x8(self);
        ptr.cast::<[[u8; 8]; 2]>().write_unaligned([v, v])""",
"8 bit 4:2:0 or 4:2:2 destination with separate chroma planes, AVX2, width a multiple of 16, something behind the chroma row (padding or a following allocation)",
"the last vector store of every chroma row writes 8 bytes behind the row: row padding is overwritten and the last row runs out of the plane",
r"""
fn main() {
    let (w, h) = (32, 2);
    let s = Rng(7).bytes(w * h * 3);
    let s = src(RGB, &s, w, h, rgb());
    for f in [I420, I422] {
        let rows = if f == I420 { 1 } else { 2 };
        let (mut y, mut u, mut v) = (vec![0xAA; 64 * h], vec![0xAA; 64 * rows], vec![0xAA; 64 * rows]);
        let mut d = Image::from_planes(f, vec![&mut y[..], &mut u[..], &mut v[..]], Some(vec![64, 64, 64]), w, h, yuv(ColorSpace::BT709, true)).unwrap();
        convert(&s, &mut d).unwrap();
        for r in 0..rows {
            check!(u[r * 64 + 16..r * 64 + 64].iter().all(|b| *b == 0xAA), "padding of u row {r} overwritten");
            check!(v[r * 64 + 16..r * 64 + 64].iter().all(|b| *b == 0xAA), "padding of v row {r} overwritten");
        }
    }
}
""")

seed("p01-nv12-stride", "P01", "src/formats/nv12/read.rs",
"let uv_offset = (y / 2) * (self.uv_stride) + x * P::SIZE;",
"let uv_offset = (y / 2) * (self.y_stride) + x * P::SIZE;",
"NV12 source whose luma plane has a larger stride than its chroma plane",
"the chroma plane is read with the luma stride, rows come from the wrong place and the slice index runs out of the plane (panic)",
r"""
fn main() {
    let (w, h) = (18, 8);
    let mut r = Rng(3);
    let (y, uv) = (r.bytes(64 * h), r.bytes(w * h / 2));
    let yp: Vec<u8> = (0..h).flat_map(|i| y[64 * i..64 * i + w].to_vec()).collect();
    let c = yuv(ColorSpace::BT709, true);
    let a = Image::from_planes(NV12, vec![&y[..], &uv[..]], Some(vec![64, w]), w, h, c).unwrap();
    let b = Image::from_planes(NV12, vec![&yp[..], &uv[..]], Some(vec![w, w]), w, h, c).unwrap();
    let (mut da, mut db) = (dst(RGB, w, h, rgb()), dst(RGB, w, h, rgb()));
    convert(&a, &mut da).unwrap();
    convert(&b, &mut db).unwrap();
    check!(out(&da) == out(&db), "result depends on the strides");
}
""")

seed("p02-yuyv-row", "P02", "src/formats/yuyv/write.rs",
"let (uv10, uv11) = u1.zip(v1);",
"let (uv10, uv11) = u1.zip(v0);",
"YUYV destination whose source has different V in the two rows of a row pair",
"the V samples of every odd row are those of the row above",
r"""
fn main() {
    let (w, h) = (20, 4);
    let s = Rng(3).bytes(w * h * 2);
    let c = yuv(ColorSpace::BT709, true);
    let i = src(I422, &s, w, h, c);
    let mut d = dst(YUYV, w, h, yuv(ColorSpace::BT709, true));
    convert(&i, &mut d).unwrap();
    // within rounding, luma of YUYV is that of I422; use grey pictures per row for the chroma
    for row in 0..h {
        let mut b = vec![128u8; w * h * 2];
        for x in 0..w / 2 { b[w * h + w * h / 2 + row * w / 2 + x] = 200; }
        let mut d = dst(YUYV, w, h, c);
        convert(&src(I422, &b, w, h, c), &mut d).unwrap();
        let o = out(&d);
        for y in 0..h { for x in 0..w / 2 {
            let v = o[0][y * w * 2 + 4 * x + 3] as i32;
            let want = if y == row { 200 } else { 128 };
            check!((v - want).abs() <= 2, "V at ({x},{y}) is {v}, expected {want}");
        } }
    }
}
""")

seed("p02-tail-offset", "P02", "src/formats/visit_2x2.rs",
"            visitor.visit::<f32>(x, y);",
"            visitor.visit::<f32>(x.min(non_vectored_pixels_per_row + vectored_pixels_per_row - 2), y & !2);",
"a width that is not a multiple of the vector width and more than two rows",
"the remaining pixels of every second row pair are written two rows above",
r"""
fn main() {
    let (w, h) = (18, 4);
    let s = Rng(5).bytes(w * h * 3);
    let mut d = dst(BGR, w, h, rgb());
    convert(&src(RGB, &s, w, h, rgb()), &mut d).unwrap();
    let o = out(&d);
    for i in 0..w * h { for c in 0..3 { check!(o[0][3 * i + c] == s[3 * i + 2 - c], "pixel {i} channel {c}"); } }
}
""")

seed("p03-alpha-column", "P03", "src/formats/rgba/read.rs",
"let a11 = a11.vdivf(self.max_value);",
"let a11 = a10.vdivf(self.max_value);",
"RGBA or BGRA images with alpha that differs between neighbouring pixels of an odd row",
"alpha of some pixels of an identity conversion is taken from another pixel",
r"""
fn main() {
    for f in [RGBA, BGRA] {
        let (w, h) = (18, 4);
        let s = Rng(7).bytes(w * h * 4);
        let mut d = dst(f, w, h, rgb());
        convert(&src(f, &s, w, h, rgb()), &mut d).unwrap();
        check!(out(&d).concat() == s, "{f:?}: identity conversion changed samples");
    }
}
""")

seed("p04-alpha", "P04", "src/formats/rgb/read.rs",
"let px11 = RgbaPixel::from_loaded::<REVERSE>(r11, g11, b11, <V>::splat(1.0));",
"let px11 = RgbaPixel::from_loaded::<REVERSE>(r11, g11, b11, <V>::splat(255.0 / self.max_value - 1.0));",
"RGB or BGR to RGBA or BGRA, pixels of odd rows in the right half of a vector",
"alpha of some pixels is 0 instead of 255",
r"""
fn main() {
    let (w, h) = (20, 2);
    let s = Rng(5).bytes(w * h * 3);
    for (a, b) in [(RGB, RGBA), (BGR, RGBA), (RGB, BGRA), (BGR, BGRA)] {
        let mut d = dst(b, w, h, rgb());
        convert(&src(a, &s, w, h, rgb()), &mut d).unwrap();
        let o = out(&d);
        for i in 0..w * h { check!(o[0][4 * i + 3] == 255, "{a:?}->{b:?}: alpha of pixel {i} is {}", o[0][4 * i + 3]); }
    }
}
""")

seed("p05-i422-range", "P05", "src/formats/i422/from_rgb.rs",
"""            v = v16.vadd(v.vmul(uv_scale));""",
"""            v = v16.vadd(v.vmul(y_scale));""",
"RGB to a 4:2:2 format in limited range with a strongly coloured pixel",
"V is scaled with the luma factor 219 instead of 224",
r"""
fn main() {
    let (w, h) = (20, 2);
    let s: Vec<u8> = (0..w * h).flat_map(|_| [255u8, 0, 0]).collect();
    for (f, max) in [(I422, 255.0), (I210, 1023.0), (I212, 4095.0), (YUYV, 255.0)] {
        let mut d = dst(f, w, h, yuv(ColorSpace::BT709, false));
        convert(&src(RGB, &s, w, h, rgb()), &mut d).unwrap();
        let o = out(&d);
        let want = (16.0 + 224.0) / 255.0 * max;
        for x in 0..w / 2 {
            let v = if f == YUYV { o[0][4 * x + 3] as f64 } else if f == I422 { o[2][x] as f64 } else { word(&o[2], x) as f64 };
            check!((v - want).abs() <= 1.001, "{f:?}: V of red is {v}, expected {want}");
        }
    }
}
""")

seed("p05-average", "P05", "src/formats/i420/from_rgb.rs",
"[px00.b, px01.b, px10.b, px11.b],",
"[px00.b, px01.b, px10.b, px01.b],",
"4:2:0 destination and a blue component that differs between the pixels of the second column of a block",
"luma of the lower right pixel of every block and the block's chroma use blue of the pixel above",
r"""
fn main() {
    let (w, h) = (20, 2);
    let mut s = vec![0u8; w * h * 3];
    for x in (1..w).step_by(2) { s[3 * (w + x) + 2] = 255; }
    let mut d = dst(I420, w, h, yuv(ColorSpace::BT601, true));
    convert(&src(RGB, &s, w, h, rgb()), &mut d).unwrap();
    let o = out(&d);
    for x in 0..w {
        let want = if x % 2 == 1 { 0.114 * 255.0 } else { 0.0 };
        check!((o[0][w + x] as f64 - want).abs() <= 1.001, "Y of ({x},1) is {}, expected {want}", o[0][w + x]);
    }
    for x in 0..w / 2 {
        let want = 127.5 + 127.5 / 4.0;
        check!((o[1][x] as f64 - want).abs() <= 1.001, "U {x} is {}, expected {want}", o[1][x]);
    }
}
""")

seed("p06-i422-second-row", "P06", "src/formats/i422/to_rgb.rs",
".yuv_to_rgb(self.transfer, self.xyz_to_rgb, y11, u1_right, v1_right);",
".yuv_to_rgb(self.transfer, self.xyz_to_rgb, y11, u1_right, v0_right);",
"4:2:2 source with different V in the rows of a pair",
"the right pixels of odd rows are decoded with V of the row above",
r"""
fn main() {
    let (w, h) = (4, 2);
    let mut s = vec![128u8; w * h * 2];
    s[w * h + w * h / 2 + w / 2 + 1] = 255;
    s[w * h + w * h / 2 + w / 2] = 255;
    let mut d = dst(RGB, w, h, rgb());
    convert(&src(I422, &s, w, h, yuv(ColorSpace::BT709, true)), &mut d).unwrap();
    let o = out(&d);
    for x in 0..w {
        check!(o[0][3 * x] < 140, "row 0");
        check!(o[0][3 * (w + x)] == 255, "R of ({x},1) is {}", o[0][3 * (w + x)]);
    }
}
""")

seed("p06-i444-range", "P06", "src/formats/i444/to_rgb.rs",
"""            u = u.vmul(uv_scale);
            v = v.vmul(uv_scale);
        }

        u = u.vsubf(0.5);
        v = v.vsubf(0.5);""",
"""            u = u.vmul(uv_scale);
            v = v.vmul(uv_scale);

            // 16..=240 is centered at 128
            u = u.vaddf(0.5 / 255.0);
            v = v.vaddf(0.5 / 255.0);
        }

        u = u.vsubf(0.5);
        v = v.vsubf(0.5);""",
"4:4:4 limited range source, 10 or 12 bit or blue/red tinted values where half a code of chroma matters times 1.77..1.88",
"chroma of limited range sources is decoded half a code too high",
r"""
fn main() {
    // exact decode of BT.2020 limited range
    let (kr, kb) = (0.2627f64, 0.0593);
    let (w, h) = (16, 16);
    let mut worst = 0f64;
    for y in (16u16..=235).step_by(3) {
        let mut s = vec![0u8; 3 * 256];
        let (mut us, mut vs) = (vec![], vec![]);
        for i in 0..256 { let u = 64 + (i % 16) as u8 * 8; let v = 64 + (i / 16) as u8 * 8; us.push(u); vs.push(v); s[i] = y as u8; s[256 + i] = u; s[512 + i] = v; }
        let mut d = dst(RGB, w, h, rgb());
        convert(&src(I444, &s, w, h, yuv(ColorSpace::BT2020, false)), &mut d).unwrap();
        let o = out(&d);
        for i in 0..256 {
            let yy = (y as f64 - 16.0) / 219.0;
            let (cb, cr) = ((us[i] as f64 - 16.0) / 224.0 - 0.5, (vs[i] as f64 - 16.0) / 224.0 - 0.5);
            let r = (255.0 * (yy + 2.0 * (1.0 - kr) * cr)).clamp(0.0, 255.0);
            let b = (255.0 * (yy + 2.0 * (1.0 - kb) * cb)).clamp(0.0, 255.0);
            worst = worst.max((o[0][3 * i] as f64 - r).abs()).max((o[0][3 * i + 2] as f64 - b).abs());
        }
    }
    check!(worst <= 1.01, "error of {worst} codes");
}
""")

seed("p07-skip-range", "P07", "src/lib.rs",
"""    if src.format() == dst.format() && src.color() == dst.color() {
        // No color or pixel conversion needed just copy it over
        return""",
"""    let same_color = match (src.color(), dst.color()) {
        (ColorInfo::YUV(a), ColorInfo::YUV(b)) => {
            a.transfer == b.transfer && a.primaries == b.primaries && a.space == b.space
        }
        (a, b) => a == b,
    };

    if src.format() == dst.format() && same_color {
        // No color or pixel conversion needed just copy it over
        return""",
"YUV to YUV of the same format where only full_range differs",
"the range conversion is skipped, samples are copied unchanged",
r"""
fn main() {
    let (w, h) = (4, 2);
    let s: Vec<u8> = vec![255; w * h].into_iter().chain(vec![128; w * h / 2]).collect();
    let mut d = dst(I420, w, h, yuv(ColorSpace::BT709, false));
    convert(&src(I420, &s, w, h, yuv(ColorSpace::BT709, true)), &mut d).unwrap();
    let o = out(&d);
    check!((o[0][0] as i32 - 235).abs() <= 1, "white became {} instead of 235", o[0][0]);
}
""")

seed("p08-avx512-deinterleave", "P08", "src/vector/avx512.rs",
"let ri = _mm512_setr_epi32(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 17, 20, 23, 26, 29);",
"let ri = _mm512_setr_epi32(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 17, 20, 23, 29, 26);",
"the unstable feature on a CPU with AVX-512, a row of at least 32 pixels, RGB or BGR source",
"the red samples of the last two pixels of every group of 16 are swapped",
r"""
fn main() {
    if !is_x86_feature_detected!("avx512bw") { return; }
    let c = rgb();
    let (w, h) = (64, 2);
    let s = Rng(9).bytes(w * h * 3);
    let mut d = dst(BGR, w, h, c);
    convert(&src(RGB, &s, w, h, c), &mut d).unwrap();
    let mut worst = 0;
    // narrow windows use the scalar code
    for x in (0..w).step_by(2) {
        let i = src(RGB, &s, w, h, c).crop(Window { x, y: 0, width: 2, height: h }).unwrap();
        let mut e = dst(BGR, 2, h, c);
        convert(&i, &mut e).unwrap();
        let (o, p) = (out(&d), out(&e));
        for k in 0..6 { worst = worst.max((o[0][x * 3 + k] as i32 - p[0][k] as i32).abs()); }
    }
    check!(worst <= 1, "vector and scalar code differ by {worst}");
}
""", feat=', features = ["unstable"]', tc="nightly")

seed("p09-few-rows", "P09", "src/multi_thread.rs",
"""    let sections = height / 2;
    let threads = threads.min(sections);""",
"""    let sections = height / 2;
    let threads = threads.min(height);""",
"an image with fewer row pairs than worker threads",
"sections without any row are built, constructing their images fails and convert_multi_thread panics",
r"""
fn main() {
    let (w, h) = (4, 2);
    let s = Rng(9).bytes(w * h * 3);
    let (mut a, mut b) = (dst(RGBA, w, h, rgb()), dst(RGBA, w, h, rgb()));
    convert(&src(RGB, &s, w, h, rgb()), &mut a).unwrap();
    convert_multi_thread(&src(RGB, &s, w, h, rgb()), &mut b).unwrap();
    check!(out(&a) == out(&b), "results differ");
    if std::thread::available_parallelism().map_or(1, |n| n.get()) == 1 { return; }
}
""")

seed("p09-remainder", "P09", "src/multi_thread.rs",
"let h = (parts_per_section + extra).strict_mul_(2);",
"let h = (parts_per_section + extra.min(remainder)).strict_mul_(2);",
"a number of row pairs that the thread count doesn't divide",
"the last of the larger sections is one row pair short: the following sections are shifted and the last row pair is never converted",
r"""
fn main() {
    for h in (2..80).step_by(2) {
        let w = 2;
        let s = Rng(9).bytes(w * h * 3);
        let (mut a, mut b) = (dst(RGBA, w, h, rgb()), dst(RGBA, w, h, rgb()));
        convert(&src(RGB, &s, w, h, rgb()), &mut a).unwrap();
        convert_multi_thread(&src(RGB, &s, w, h, rgb()), &mut b).unwrap();
        check!(out(&a) == out(&b), "results differ for height {h}");
    }
}
""")

seed("p10-y-overflow", "P10", "src/crop.rs",
"""            .y
            .checked_add(window.height)
            .ok_or(CropError::WindowSizeOutOfBounds)?;""",
"""            .y
            .wrapping_add(window.height);""",
"a window whose y + height overflows usize",
"the window is accepted although it lies outside of the parent",
r"""
fn main() {
    let (w, h) = (8, 8);
    let s = vec![0u8; w * h * 3];
    let r = src(RGB, &s, w, h, rgb()).crop(Window { x: 0, y: usize::MAX - 1, width: 8, height: 4 });
    check!(r.is_err(), "window accepted");
}
""")

seed("p10-plane-row", "P10", "src/crop.rs",
"let y = plane_desc.height_op.op(window.y);",
"let y = plane_desc.width_op.op(window.y);",
"a window with y > 0 in a 4:2:2 or interleaved image",
"the row offset of the window is computed with the horizontal subsampling",
r"""
fn main() {
    let (w, h) = (8, 8);
    let c = yuv(ColorSpace::BT709, true);
    let s = Rng(9).bytes(w * h * 2);
    let i = src(I422, &s, w, h, c).crop(Window { x: 2, y: 4, width: 4, height: 4 }).unwrap();
    let mut d = dst(I422, 4, 4, c);
    convert(&i, &mut d).unwrap();
    let o = out(&d);
    for y in 0..4 { for x in 0..2 { check!(o[1][2 * y + x] == s[w * h + (4 + y) * w / 2 + 1 + x], "U of ({x},{y})"); } }
}
""")

seed("p11-wrapping-mul", "P11", "src/lib.rs",
"""        self.checked_mul(rhs)
            .expect("attempt to multiply with overflow")""",
"""        let product = self.wrapping_mul(rhs);
        debug_assert!(self <= usize::MAX / 2);
        product""",
"dimensions whose product exceeds usize",
"buffer_size wraps around silently and bounds_check accepts planes that are far too small",
r"""
fn main() {
    let r = std::panic::catch_unwind(|| RGBA.buffer_size(usize::MAX / 4 + 1, 2));
    check!(r.is_err() || r.unwrap() > 1 << 40, "buffer size wrapped around");
}
""")

seed("p11-first-stride", "P11", "src/pixel_format.rs",
"""                if min_stride > stride {""",
"""                if i == 0 && min_stride > stride {""",
"a stride of a chroma plane that is smaller than its row",
"bounds_check accepts chroma planes whose rows overlap",
r"""
fn main() {
    let (y, u, v) = (vec![0u8; 256], vec![0u8; 64], vec![0u8; 64]);
    check!(Image::from_planes(I420, vec![&y[..], &u[..], &v[..]], Some(vec![16, 8, 7]), 16, 16, yuv(ColorSpace::BT709, true)).is_err(), "overlapping rows accepted");
    check!(Image::from_planes(I420, vec![&y[..], &u[..], &v[..]], Some(vec![16, 8, 8]), 16, 16, yuv(ColorSpace::BT709, true)).is_ok(), "packed image rejected");
}
""")

seed("p12-i41x", "P12", "src/planes.rs",
"""        PixelFormat::I410 | PixelFormat::I412 => {
            ArrayIter::from(infer_i41x(buf, width, height, strides))
        }""",
"""        PixelFormat::I410 => ArrayIter::from(infer_i41x(buf, width, height, strides)),
        PixelFormat::I412 => ArrayIter::from(infer_i21x(buf, width, height, strides)),""",
"infer for I412",
"the chroma planes returned for I412 are those of a 4:2:2 image",
r"""
fn main() {
    let b = vec![0u8; I412.buffer_size(6, 4)];
    let l: Vec<usize> = infer(I412, &b[..], 6, 4, None).map(|p| p.len()).collect();
    check!(l == [48, 48, 48], "plane sizes {l:?}");
}
""")

seed("p12-packed-split", "P12", "src/planes.rs",
"let split_at = desc.height_op.op(height).strict_mul_(stride);",
"let split_at = desc.height_op.op(height).strict_mul_(stride.max(desc.packed_stride(width)).next_multiple_of(desc.bytes_per_primitive));",
"infer with an odd stride for a 16 bit format",
"planes start behind the end of the previous plane",
r"""
fn main() {
    let b = vec![0u8; 4096];
    let p: Vec<&[u8]> = infer(I410, &b[..], 4, 4, Some(&[9, 9, 9])).collect();
    check!(p.iter().all(|p| p.len() == 36), "plane sizes {:?}", p.iter().map(|p| p.len()).collect::<Vec<_>>());
}
""")

seed("p13-i212-bits", "P13", "src/pixel_format.rs",
"            PixelFormat::I212 => 12,",
"            PixelFormat::I212 => 10,",
"conversion from or to I212",
"I212 is treated as a 10 bit format: full scale becomes 1023",
r"""
fn main() {
    let (w, h) = (4, 2);
    let s = vec![255u8; w * h * 2];
    let c = yuv(ColorSpace::BT709, true);
    let mut d = dst(I212, w, h, c);
    convert(&src(I422, &s, w, h, c), &mut d).unwrap();
    check!(word(&out(&d)[0], 0) >= 4094, "full scale became {}", word(&out(&d)[0], 0));
}
""")

seed("p18-odd", "P18", "src/lib.rs",
"if src.width() % 2 == 1 || src.height() % 2 == 1 {",
"if (src.width() | src.height()) % 2 == 1 && src.width() % 2 == src.height() % 2 {",
"images of which only one of width and height is odd",
"they are not rejected with OddImageDimensions but reach an assertion (panic)",
r"""
fn main() {
    let s = vec![0u8; 3 * 2 * 3];
    let mut d = dst(RGBA, 3, 2, rgb());
    let r = convert(&src(RGB, &s, 3, 2, rgb()), &mut d);
    check!(matches!(r, Err(ConvertError::OddImageDimensions)), "{r:?}");
}
""")

seed("p18-zero", "P18", "src/image.rs",
"        if width == 0 || height == 0 {",
"        if width * height == 0 && (width != 0 || height == 0) {",
"Image construction with width 0 and height above 0",
"an image with zero width is accepted",
r"""
fn main() {
    let b = vec![0u8; 64];
    check!(Image::from_buffer(RGB, &b[..], None, 0, 4, rgb()).is_err(), "width 0 accepted");
    check!(Image::from_buffer(RGB, &b[..], None, 4, 0, rgb()).is_err(), "height 0 accepted");
}
""")

seed("p14-pq-black", "P14", "src/color/transfer.rs",
"        let a = epow1dm2.vsubf(C1).vmaxf(0.0);",
"        let a = epow1dm2.vsubf(C1);",
"PQ signals of 0 or barely above it",
"the PQ EOTF raises a negative number to a fractional power: black becomes NaN",
r"""
fn main() {
    for i in 0..200 {
        let x = i as f32 / 200.0;
        let y = ColorTransfer::BT2100PQ.scaled_to_linear(x);
        check!(y.is_finite() && y >= 0.0 && y <= 10001.0, "PQ EOTF of {x} is {y}");
    }
}
""")

seed("p14-srgb-knee", "P14", "src/color/transfer.rs",
"        let mask = i.lef(0.0031308);",
"        let mask = i.lef(0.0041308);",
"sRGB encoding of light between 0.0031308 and 0.0041308",
"the linear segment of the sRGB curve is used above its end: up to 0.0036 too bright, and the curve jumps downwards at 0.0041",
r"""
fn main() {
    let mut last = -1.0;
    for i in 0..2000 {
        let x = i as f32 / 200000.0;
        let y = ColorTransfer::SRGB.linear_to_scaled(x);
        check!(y >= last, "the sRGB curve falls at {x}: {last} {y}");
        last = y;
        let r = ColorTransfer::SRGB.scaled_to_linear(y);
        check!((r - x).abs() < 1e-4, "round trip of {x} is {r}");
    }
}
""")

seed("p14-exp-clamp", "P14", "src/vector/avx2.rs",
"        const EXP_LO: __m256 = splat(-88.376_26);",
"        const EXP_LO: __m256 = splat(-12.476_26);",
"AVX2 code, powers with results below 4e-6, such as the PQ EOTF of black",
"pow never returns less than 4e-6: PQ black decodes to 0.038 cd/m2 instead of 0",
r"""
fn main() {
    let (w, h) = (64, 2);
    let s = vec![0u8; w * h * 3];
    let mut d = dst(RGB, w, h, rgb_of(ColorTransfer::Linear, ColorPrimaries::BT709));
    convert(&src(RGB, &s, w, h, rgb_of(ColorTransfer::BT2100PQ, ColorPrimaries::BT709)), &mut d).unwrap();
    check!(out(&d)[0].iter().all(|b| *b == 0), "black becomes {:?}", &out(&d)[0][..8]);
}
""")

seed("p15-bt2020-entry", "P15", "src/color/primaries.rs",
"        [-0.25336626, 0.01576853, 0.9421032],",
"        [-0.25336626, 0.01567853, 0.9421032],",
"BT.2020 as destination primaries, blue content",
"two digits of one entry are swapped: the BT.2020 matrices are no longer each other's inverse",
r"""
fn main() {
    for p in [ColorPrimaries::ST240, ColorPrimaries::BT709, ColorPrimaries::BT2020] {
        let (a, b) = (p.rgb_to_xyz_mat(), p.xyz_to_rgb_mat());
        for i in 0..3 {
            for j in 0..3 {
                let s: f64 = (0..3).map(|k| a[i][k] as f64 * b[k][j] as f64).sum();
                check!((s - (i == j) as u8 as f64).abs() < 2e-5, "{p:?}: product entry {i} {j} is {s}");
            }
        }
    }
}
""")

seed("p15-inverse-alias", "P15", "src/color/primaries.rs",
"            ST240 => &generated_consts::ST240_XYZ_TO_RGB,",
"            ST240 => &generated_consts::BT709_XYZ_TO_RGB,",
"ST 240 as destination primaries",
"XYZ to RGB of ST 240 is BT.709's matrix",
r"""
fn main() {
    for p in [ColorPrimaries::ST240, ColorPrimaries::BT709, ColorPrimaries::BT2020] {
        let (a, b) = (p.rgb_to_xyz_mat(), p.xyz_to_rgb_mat());
        for i in 0..3 {
            for j in 0..3 {
                let s: f64 = (0..3).map(|k| a[i][k] as f64 * b[k][j] as f64).sum();
                check!((s - (i == j) as u8 as f64).abs() < 1e-4, "{p:?}: product entry {i} {j} is {s}");
            }
        }
    }
}
""")

seed("p16-fourth-pixel", "P16", "src/formats/transfer_and_primaries_convert.rs",
"        let mut iter = i.chunks_exact_mut(3);",
"        let mut iter = i[..9].chunks_exact_mut(3);",
"conversion between different primaries, pixels in odd columns of odd rows",
"the lower right pixel of every 2x2 block keeps the source's primaries",
r"""
fn main() {
    let (w, h) = (34, 4);
    let s: Vec<u8> = (0..w * h).flat_map(|_| [40u8, 200, 60]).collect();
    let mut d = dst(RGB, w, h, rgb_of(ColorTransfer::SRGB, ColorPrimaries::BT2020));
    convert(&src(RGB, &s, w, h, rgb()), &mut d).unwrap();
    let o = &out(&d)[0];
    check!(o.chunks(3).all(|p| (0..3).all(|k| p[k].abs_diff(o[k]) <= 3)), "a uniform image becomes uneven: {:?}", &o[..12]);
}
""")

seed("p16-linear-skip", "P16", "src/formats/transfer_and_primaries_convert.rs",
"    src_color.transfer() != dst_color.transfer() || src_color.primaries() != dst_color.primaries()",
"""    // Linear light has no transfer to convert
    src_color.transfer() != dst_color.transfer()
        || (src_color.primaries() != dst_color.primaries()
            && src_color.transfer() != ColorTransfer::Linear)""",
"source and destination both with linear transfer, different primaries",
"the gamut conversion is skipped",
r"""
fn main() {
    let (w, h) = (34, 2);
    let s: Vec<u8> = (0..w * h).flat_map(|_| [0u8, 200, 0]).collect();
    let mut d = dst(RGB, w, h, rgb_of(ColorTransfer::Linear, ColorPrimaries::BT2020));
    convert(&src(RGB, &s, w, h, rgb_of(ColorTransfer::Linear, ColorPrimaries::BT709)), &mut d).unwrap();
    let o = &out(&d)[0];
    // BT.709 green is inside BT.2020: its red component is 0.329 times the green one
    check!((o[0] as i32 - 66).abs() <= 1 && (o[1] as i32 - 184).abs() <= 1, "{:?}", &o[..3]);
}
""")

seed("p17-yx4-right", "P17", "src/color/space.rs",
"    let rgb11 = f(transfer, xyz_to_rgb, y11, right_u, right_v);",
"    let rgb11 = f(transfer, xyz_to_rgb, y11, right_u, left_v);",
"4:2:0 source in ICtCp, chroma that varies along the row",
"pixels in the lower row of the right half of a block take the Cp of the left half",
r"""
fn main() {
    let (w, h) = (32, 2);
    let y = vec![128u8; w * h];
    let u = vec![128u8; w / 2];
    let v: Vec<u8> = (0..w / 2).map(|i| 100 + 3 * i as u8).collect();
    let b = [y, u, v].concat();
    let c = yuv_of(ColorSpace::ICtCpHLG, true, ColorTransfer::BT2100HLG, ColorPrimaries::BT2020);
    let mut d = dst(RGB, w, h, rgb_of(ColorTransfer::BT2100HLG, ColorPrimaries::BT2020));
    convert(&src(I420, &b, w, h, c), &mut d).unwrap();
    let o = &out(&d)[0];
    check!(o[..w * 3] == o[w * 3..], "two rows with the same luma and chroma differ");
}
""")

seed("p17-hlg-s", "P17", "src/color/space.rs",
"            .vadd(u.vmul(V::splat(1.0212711)))",
"            .vadd(u.vmul(V::splat(1.0122711)))",
"saturated blue or yellow in an ICtCp (HLG) image",
"one coefficient of the inverse ICtCp matrix is 0.9% off: blue comes out up to a few codes wrong",
r"""
fn main() {
    let (w, h) = (4, 2);
    let hlg = rgb_of(ColorTransfer::BT2100HLG, ColorPrimaries::BT2020);
    let c = yuv_of(ColorSpace::ICtCpHLG, true, ColorTransfer::BT2100HLG, ColorPrimaries::BT2020);
    for p in [[0u8, 0, 255], [255, 255, 0], [20, 20, 240], [0, 0, 200]] {
        let s: Vec<u8> = (0..w * h).flat_map(|_| p).collect();
        let mut m = dst(I412, w, h, c);
        convert(&src(RGB, &s, w, h, hlg), &mut m).unwrap();
        let mut d = dst(RGB, w, h, hlg);
        convert(&m, &mut d).unwrap();
        let o = &out(&d)[0];
        for k in 0..3 { check!((o[k] as i32 - p[k] as i32).abs() <= 3, "{p:?} comes back as {:?}", &o[..3]) }
    }
}
""")

seed("p17-lms-last", "P17", "src/color/space.rs",
"let s = x.vmulf(0.0071).vadd(y.vmulf(0.0748)).vadd(z.vmulf(0.8433));",
"let s = x.vmulf(0.0071).vadd(y.vmulf(0.0748)).vadd(z.vmulf(0.8343));",
"RGB converted to ICtCp",
"two digits of one coefficient of the XYZ to LMS matrix are swapped (1% less blue cone response): greys get a tint",
r"""
fn main() {
    let (w, h) = (4, 2);
    for (t, sp) in [(ColorTransfer::BT2100HLG, ColorSpace::ICtCpHLG)] {
        let c = yuv_of(sp, true, t, ColorPrimaries::BT2020);
        let mut worst = 0;
        for g in [60u8, 120, 180, 220] {
            let s = vec![g; w * h * 3];
            let mut d = dst(I412, w, h, c);
            convert(&src(RGB, &s, w, h, rgb_of(t, ColorPrimaries::BT2020)), &mut d).unwrap();
            let o = out(&d);
            worst = worst.max((word(&o[1], 0) as i32 - 2048).abs()).max((word(&o[2], 0) as i32 - 2048).abs());
        }
        check!(worst <= 6, "grey gets chroma {worst}");
    }
}
""")

RESIZE = r"""
use ezk_image::resize::*;
fn run(r: &mut Resizer, f: PixelFormat, s: &[u8], sw: usize, sh: usize, dw: usize, dh: usize, c: ColorInfo) -> Vec<Vec<u8>> {
    let i = src(f, s, sw, sh, c);
    let mut d = dst(f, dw, dh, c);
    r.resize(&i, &mut d).unwrap();
    out(&d)
}
"""

seed("p19-nv12-unit", "P19", "src/plane_decs.rs",
"        pixel_type: U8x2,",
"        pixel_type: U8,",
"NV12 image resized to another width",
"U and V of NV12 are resampled as one row of bytes: they get mixed up (resizing to the same size is still a copy)",
RESIZE + r"""
fn main() {
    let c = yuv(ColorSpace::BT709, true);
    let s: Vec<u8> = [vec![100u8; 16 * 4], [50u8, 200].repeat(16)].concat();
    let o = run(&mut Resizer::new(ResizeAlg::Nearest), NV12, &s, 16, 4, 8, 4, c);
    check!(o[1].chunks(2).all(|p| p == [50, 200]), "chroma {:?}", &o[1][..8]);
}
""")

seed("p19-reused", "P19", "src/resize.rs",
"            cmp::max(self.fir.len(), src_planes.len()),",
"            cmp::max(self.fir.len(), 1.max(src_planes.len() * self.fir.is_empty() as usize)),",
"a Resizer that was used for a format with fewer planes before",
"the planes for which there is no inner resizer yet are left out: the chroma planes of the destination keep their old content",
RESIZE + r"""
fn main() {
    let mut r = Resizer::new(ResizeAlg::Nearest);
    run(&mut r, RGB, &[9; 48], 4, 4, 8, 8, rgb());
    let o = run(&mut r, I420, &[77; 24], 4, 4, 8, 8, yuv(ColorSpace::BT709, true));
    check!(o.iter().all(|p| p.iter().all(|b| *b == 77)), "planes not resized: {o:?}");
}
""")

seed("p19-row-pitch", "P19", "src/resize.rs",
"            .chunks_mut(self.stride.max(1))",
"            .chunks_mut((self.width * P::pixel_type().size()).max(1))",
"destination with padded rows or a cropped destination",
"rows are written at the packed row size instead of the stride: the image is sheared and padding is overwritten",
RESIZE + r"""
fn main() {
    let s: Vec<u8> = (0..4 * 4 * 3).map(|i| i as u8).collect();
    let i = src(RGB, &s, 4, 4, rgb());
    let mut b = vec![0xAAu8; 20 * 2];
    let mut d = Image::from_planes(RGB, vec![&mut b[..]], Some(vec![20]), 2, 2, rgb()).unwrap();
    Resizer::new(ResizeAlg::Nearest).resize(&i, &mut d).unwrap();
    drop(d);
    check!(b[6..20].iter().all(|x| *x == 0xAA), "padding overwritten");
    check!(b[20] == 36 + 3, "second row {:?}", &b[20..26]);
}
""")

seed("p19-no-take", "P19", "src/resize.rs",
"""            .chunks_mut(self.stride.max(1))
            .take(self.height)
""",
"""            .chunks_mut(self.stride.max(1))
            .take(self.height.next_multiple_of(4))
""",
"source and destination planes longer than their images by part of a row, plane height no multiple of 4",
"resizing panics on bytes behind the last row",
RESIZE + r"""
fn main() {
    for alg in [ResizeAlg::Nearest, ResizeAlg::Convolution(FilterType::Bilinear), ResizeAlg::Convolution(FilterType::Lanczos3)] {
        for (sh, dh) in [(4, 2), (2, 6), (8, 2), (6, 2), (2, 2), (2, 10)] {
            let s = Rng(5).bytes(32 * sh + 5);
            let mut b = vec![0xAAu8; 24 * dh + 5];
            let i = Image::from_planes(RGBA, vec![&s[..]], Some(vec![32]), 8, sh, rgb()).unwrap();
            let mut d = Image::from_planes(RGBA, vec![&mut b[..]], Some(vec![24]), 6, dh, rgb()).unwrap();
            Resizer::new(alg).resize(&i, &mut d).unwrap();
            drop(d);
            check!(b[24 * dh..].iter().all(|x| *x == 0xAA), "rows behind the image written, {sh} to {dh}");
        }
    }
}
""")

seed("p19-format", "P19", "src/resize.rs",
"        if src.format() != dst.format() {",
"        if src.format().buffer_size(2, 2) != dst.format().buffer_size(2, 2) {",
"two different formats of the same size, e.g. RGB and BGR or I420 and NV12",
"resizing between different formats is not rejected: channels or planes are mixed up",
RESIZE + r"""
fn main() {
    let s = vec![1u8; 48];
    let i = src(RGB, &s, 4, 4, rgb());
    let mut d = dst(BGR, 2, 2, rgb());
    check!(Resizer::new(ResizeAlg::Nearest).resize(&i, &mut d).is_err(), "RGB to BGR accepted");
}
""")

seed("p19-width", "P19", "src/resize.rs",
"""                    let src_fir_width = plane_desc.width_op.op(src_width)
                        / (plane_desc.pixel_type.size() / plane_desc.bytes_per_primitive);""",
"""                    let src_fir_width = (plane_desc.width_op.op(src_width) * plane_desc.bytes_per_primitive / plane_desc.pixel_type.size())
                        .min(src_stride / plane_desc.pixel_type.size() & !1);""",
"source plane whose stride holds an odd number of samples just as wide as the image, e.g. the chroma planes of a 4:2:0 image of width 4k+2",
"the last chroma column is left out of the source rectangle: chroma is stretched",
RESIZE + r"""
fn main() {
    let c = yuv(ColorSpace::BT709, true);
    let s: Vec<u8> = (0..6 * 2 * 3).map(|i| i as u8).collect();
    for f in [I420, I422, NV12] {
        let i = src(f, &s[..f.buffer_size(6, 2)], 6, 2, c);
        let mut d = dst(f, 6, 2, c);
        Resizer::new(ResizeAlg::Nearest).resize(&i, &mut d).unwrap();
        check!(out(&d).concat() == s[..f.buffer_size(6, 2)], "{f:?} is not reproduced");
    }
}
""")


seed("p20-mut-ref", "P20", "src/image_traits.rs",
"""unsafe impl<T: ImageRef> ImageRef for &mut T {
    fn format(&self) -> PixelFormat {
        <T as ImageRef>::format(self)
    }

    fn width(&self) -> usize {
        <T as ImageRef>::width(self)
    }

    fn height(&self) -> usize {
        <T as ImageRef>::height(self)
    }
""",
"""unsafe impl<T: ImageRef> ImageRef for &mut T {
    fn format(&self) -> PixelFormat {
        <T as ImageRef>::format(self)
    }

    fn width(&self) -> usize {
        <T as ImageRef>::width(self)
    }

    fn height(&self) -> usize {
        <T as ImageRef>::width(self)
    }
""",
"an image that is not square, handed over by mutable reference",
"an image held by &mut reference reports its width as its height",
RESIZE + r"""
fn size<T: ImageRef>(t: T) -> (usize, usize) { (t.width(), t.height()) }
fn main() {
    let mut i = Image::blank(RGBA, 4, 2, rgb());
    check!(size(&i) == (4, 2), "by reference");
    check!(size(&mut i) == (4, 2), "by mutable reference: {:?}", size(&mut i));
    check!(size(i) == (4, 2), "by value");
}
""")

seed("p20-blank-stride", "P20", "src/image.rs",
"""            strides: format.packed_strides(width),
            width,
            height,
            color,
        }
    }
}
""",
"""            strides: format.packed_strides(width & !1),
            width,
            height,
            color,
        }
    }
}
""",
"blank image of odd width",
"the strides of a blank image of odd width are too small for its rows, its own bounds check rejects it",
RESIZE + r"""
fn main() {
    for f in [RGBA, RGB] {
        let i = Image::blank(f, 3, 3, rgb());
        check!(i.bounds_check().is_ok(), "{f:?} 3x3: {:?}", i.bounds_check());
        let i = Image::blank(f, 4, 3, rgb());
        check!(i.bounds_check().is_ok(), "{f:?} 4x3");
    }
}
""")

seed("p21-tiles", "P21", "src/formats/visit_2x2.rs",
"""        // Process V::LEN * 2 columns per iteration of this loop
        for x in (0..vectored_pixels_per_row).step_by(V::LEN * 2) {
            visitor.visit::<V>(x, y);
        }
""",
"""        // Process V::LEN * 2 columns per iteration of this loop, in tiles that stay in the cache
        let tile = usize::min(vectored_pixels_per_row, 2048);
        for t in 0..vectored_pixels_per_row.checked_div(tile).unwrap_or(0) {
            for x in (t * tile..(t + 1) * tile).step_by(V::LEN * 2) {
                visitor.visit::<V>(x, y);
            }
        }
""",
"image wider than 2048 pixels whose width is not a multiple of 2048",
"the columns of the last, incomplete tile are never converted",
r"""
fn main() {
    for w in [512, 2048, 2112, 4100] {
        let s = Rng(3).bytes(w * 2 * 3);
        let mut d = dst(BGR, w, 2, rgb());
        convert(&src(RGB, &s, w, 2, rgb()), &mut d).unwrap();
        let o = out(&d);
        for x in 0..w * 2 {
            check!(o[0][3 * x] == s[3 * x + 2] && o[0][3 * x + 2] == s[3 * x], "width {w}: column {} is not converted", x % w);
        }
    }
}
""")

seed("p21-offset32", "P21", "src/formats/nv12/read.rs",
"        let uv_offset = (y / 2) * (self.uv_stride) + x * P::SIZE;",
"        let uv_offset = ((y / 2) as u32).wrapping_mul(self.uv_stride as u32) as usize + x * P::SIZE;",
"NV12 source whose chroma plane is longer than 4 GiB",
"the offset of a chroma row is computed in 32 bits: beyond 4 GiB the chroma of rows further up is used",
r"""
fn main() {
    // 600 rows of 8 pixels, 16 MiB apart (the pages between them are never touched)
    let (w, h, stride) = (8usize, 600usize, 1usize << 24);
    let c = yuv(ColorSpace::BT709, true);
    let y = vec![128u8; w * h];
    let mut uv = vec![0u8; stride * (h / 2 - 1) + w];
    for r in 0..h / 2 { for x in 0..w { uv[r * stride + x] = (r * 7 % 200 + x) as u8; } }
    let i = Image::from_planes(NV12, vec![&y[..], &uv[..]], Some(vec![w, stride]), w, h, c).unwrap();
    let mut d = dst(I420, w, h, c);
    convert(&i, &mut d).unwrap();
    let o = out(&d);
    for r in 0..h / 2 { for x in 0..w / 2 {
        check!(o[1][r * w / 2 + x].abs_diff(uv[r * stride + 2 * x]) <= 2, "chroma row {r}");
    } }
}
""")

seed("p21-bands", "P21", "src/formats/visit_2x2.rs",
"""    // Process 2 rows of pixels for iteration of this loop
    for y in (0..height).step_by(2) {
""",
"""    // Process 2 rows of pixels for iteration of this loop, in bands of 512 rows
    let bands = (0..height).step_by(512);
    let last = bands.len().saturating_sub(1) * 512;
    let rows = bands.flat_map(|b| (b..if b == last { height } else { b + 510 }).step_by(2));
    for y in rows {
""",
"image of more than 512 rows",
"the last two rows of every band of 512 rows but the last one are not converted",
r"""
fn main() {
    for h in [512, 514, 1030] {
        let s = Rng(3).bytes(2 * h * 3);
        let mut d = dst(BGR, 2, h, rgb());
        convert(&src(RGB, &s, 2, h, rgb()), &mut d).unwrap();
        let o = out(&d);
        for i in 0..2 * h {
            check!(o[0][3 * i] == s[3 * i + 2] && o[0][3 * i + 2] == s[3 * i], "height {h}: row {} is not converted", i / 2);
        }
    }
}
""")
