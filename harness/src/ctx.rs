//! C34 to C38: contexts and plug-ins
#[cfg(not(kani))]
use crate::kani;
use crate::profile::fake_format;
use crate::{harnesses, witness};
use lcms2::plugins::*;
use lcms2::state::{verif_hooks as sh, Context, ErrorCode};
use lcms2::types::{Pipeline, Profile, Signature};
use std::sync::Arc;

/// All that is global, in one. (Kani gives constants with the same bytes as a static the same place in memory; the first
/// field makes these bytes unlike those of any constant.)
struct Globals {
    magic: u64,
    reports: [u32; 2],
    code: u32,
    text_len: usize,
    text: [u8; 4],
    // the place that is looked at in a long text, and what was there
    at: usize,
    here: u8,
    context: *const Context,
}
static mut G: Globals = Globals {
    magic: 0x5EED_C0DE_0000_0C7C,
    reports: [0; 2],
    code: 0,
    text_len: 0,
    text: [0; 4],
    at: 0,
    here: 0,
    context: std::ptr::null(),
};

fn record(who: usize, ctx: &mut Context, code: ErrorCode, text: String) {
    unsafe {
        G.reports[who] += 1;
        G.code = code as u32;
        G.context = ctx;
        G.text_len = text.len();
        if G.at < G.text_len {
            G.here = text.as_bytes()[G.at];
        }
        let mut i = 0;
        while i < 4 && i < text.len() {
            G.text[i] = text.as_bytes()[i];
            i += 1;
        }
    }
    std::mem::forget(text);
}
fn first(ctx: &mut Context, code: ErrorCode, text: String) {
    record(0, ctx, code, text)
}
fn second(ctx: &mut Context, code: ErrorCode, text: String) {
    record(1, ctx, code, text)
}
fn reports() -> [u32; 2] {
    unsafe { G.reports }
}

fn code(n: u8) -> ErrorCode {
    match n {
        0 => ErrorCode::Undefined,
        1 => ErrorCode::File,
        2 => ErrorCode::Range,
        3 => ErrorCode::Internal,
        4 => ErrorCode::Null,
        5 => ErrorCode::Read,
        6 => ErrorCode::Seek,
        7 => ErrorCode::Write,
        8 => ErrorCode::UnknownExtension,
        9 => ErrorCode::ColorSpaceCheck,
        10 => ErrorCode::AlreadyDefined,
        11 => ErrorCode::BadSignature,
        12 => ErrorCode::CorruptionDetected,
        _ => ErrorCode::NotSuitable,
    }
}

// Contents for plug-ins
fn interpolation(_: u32, _: u32, _: u32) -> InterpFunction {
    InterpFunction::InterpFn16(|_, _, _| {})
}
fn evaluator(_: i32, _: &[f64], _: f64) -> f64 {
    0.0
}
fn formatters(_: Signature, _: FormatterDirection, _: FormatterPrecision) -> Formatter {
    unreachable!()
}
fn reader(_: &mut Context, _: &TypeHandler, _: &dyn lcms2::io::IOHandler, _: &mut u32, _: usize) -> Option<Box<[u8]>> {
    None
}
fn writer(_: &mut Context, _: &TypeHandler, _: &dyn lcms2::io::IOHandler, _: &[u8], _: usize) -> Option<()> {
    None
}
fn decide(_: f64, _: &[u8]) -> Signature {
    Signature::default()
}
fn link(_: &mut Context, _: usize, _: &[Signature], _: &[Profile], _: &[bool], _: &[f64], _: u32) -> Arc<Pipeline> {
    unreachable!()
}
fn optimize(_: &mut Box<[Pipeline]>, _: Signature) -> Option<(Signature, Signature, u32)> {
    None
}
fn legacy(_: TransformFn, _: &mut Box<[u8]>, _: &mut Box<Pipeline>) -> Option<(Signature, Signature, u32)> {
    None
}
fn modern(_: Transform2Fn, _: &mut Box<[u8]>, _: &mut Box<Pipeline>) -> Option<(Signature, Signature, u32)> {
    None
}
fn sig() -> Signature {
    Signature::from(kani::any::<u32>())
}
fn handler() -> TypeHandler {
    TypeHandler::verif_new(sig(), kani::any(), reader, writer)
}
fn payload(kind: u8) -> PluginType {
    match kind {
        0 => PluginType::Interpolation { interpolation_factory: interpolation },
        1 => PluginType::ParametricCurve {
            num_functions: kani::any(),
            function_types: kani::any(),
            parameter_count: kani::any(),
            evaluator,
        },
        2 => PluginType::Formatter { formatters_factory: formatters },
        3 => PluginType::TagType { handler: handler() },
        4 => PluginType::Tag {
            signature: sig(),
            descriptor: TagDescriptor::verif_new(kani::any(), Vec::new(), decide),
        },
        5 => PluginType::RenderingIntent { intent: sig(), link, description: String::new() },
        6 => PluginType::MultiProcessElement { handler: handler() },
        7 => PluginType::Optimization { optimizer: optimize },
        _ => PluginType::Transform {
            factory: if kani::any() { TransformFactories::Legacy(legacy) } else { TransformFactories::Modern(modern) },
        },
    }
}

fn known(t: u32) -> bool {
    let names: [&[u8; 4]; 9] =
        [b"xfmH", b"inpH", b"typH", b"tagH", b"frmH", b"intH", b"parH", b"mpeH", b"optH"];
    let mut i = 0;
    let mut r = false;
    while i < 9 {
        r |= t == u32::from_be_bytes(*names[i]);
        i += 1;
    }
    r
}

/// C34: a chain of `N` plug-ins
fn chain<const N: usize>() {
    let mut valid = true;
    let mut last_only = true;
    let mut next = None;
    let mut i = 0;
    while i < N {
        let (magic, version, kind): (u32, u32, u32) = (kani::any(), kani::any(), kani::any());
        let good = magic == u32::from_be_bytes(*b"acpp") && version <= 2131 && known(kind);
        valid &= good;
        last_only &= good == (i > 0);
        let p = Plugin {
            magic: Signature::from(magic),
            expected_version: version,
            r#type: Signature::from(kind),
            next,
            data: PluginType::Interpolation { interpolation_factory: interpolation },
        };
        next = Some(Arc::new(p));
        i += 1;
    }
    let mut ctx = Context::new(None);
    sh::set_error_handler(&mut ctx, first);
    let here: *const Context = &ctx;
    let head = next.unwrap();
    let r = ctx.init_plugin(&head);
    assert!(r.is_ok() == valid);
    if valid {
        assert!(reports() == [0, 0]);
        witness!(true, "accepted");
    } else {
        assert!(reports() == [1, 0]);
        assert!(unsafe { G.code } == 8);
        assert!(unsafe { G.context } == here);
        witness!(last_only, "only the last is invalid");
    }
    std::mem::forget(r);
    std::mem::forget(ctx);
    std::mem::forget(head);
}

fn text() -> ([u8; 4], usize, String) {
    let b: [u8; 4] = kani::any();
    let n: usize = kani::any();
    kani::assume(n <= 4 && b[0] < 0x80 && b[1] < 0x80 && b[2] < 0x80 && b[3] < 0x80);
    let mut v = Vec::with_capacity(4);
    let mut i = 0;
    while i < n {
        v.push(b[i]);
        i += 1;
    }
    (b, n, unsafe { String::from_utf8_unchecked(v) })
}
fn check_report(who: usize, ctx: *const Context, c: u8, b: [u8; 4], n: usize) {
    unsafe {
        assert!(G.reports[who] == 1 && G.reports[1 - who] == 0);
        assert!(G.code == if c > 13 { 13 } else { c as u32 });
        assert!(G.context == ctx);
        assert!(G.text_len == n);
        let i: usize = kani::any();
        kani::assume(i < n);
        assert!(G.text[i] == b[i]);
    }
}

fn user_data(len: usize, b: [u8; 3]) -> Option<Box<[u8]>> {
    match len {
        0 => None,
        1 => Some(Vec::new().into_boxed_slice()),
        2 => Some(vec![b[0]].into_boxed_slice()),
        _ => Some(Box::new(b)),
    }
}
fn check_user_data(ctx: &Context, len: usize, b: [u8; 3]) {
    match ctx.get_user_data() {
        None => assert!(len == 0),
        Some(d) => {
            assert!(len > 0);
            assert!(d.len() == match len { 1 => 0, 2 => 1, _ => 3 });
            let i: usize = kani::any();
            kani::assume(i < d.len());
            assert!(d[i] == b[i]);
        }
    }
}
fn any_data() -> (usize, [u8; 3]) {
    let len: usize = kani::any();
    kani::assume(len < 4);
    (len, kani::any())
}

fn check_lists(ctx: &Context, n: usize) {
    let counts = sh::registered(ctx);
    let mut i = 0;
    while i < 8 {
        assert!(counts[i] == n);
        i += 1;
    }
}
fn register_all(ctx: &mut Context) {
    let l = sh::lists(ctx);
    l.parametric_curves.push(Default::default());
    l.formatters.push(formatters);
    l.tag_types.push(handler());
    l.tags.push(TagListItem { signature: sig(), descriptor: TagDescriptor::verif_new(1, Vec::new(), decide) });
    l.intents.push(IntentsListItem { intent: sig(), description: String::new(), link });
    l.mpe_types.push(handler());
    l.optimizations.push(OptimizationCollectionItem { optimize_ptr: optimize });
    l.transforms.push(TransformFactories::Modern(modern));
}

fn copied_with(len: usize) {
    let b: [u8; 3] = kani::any();
    let mut ctx = Context::new(user_data(len, b));
    let codes: [u16; 16] = kani::any();
    let state: f64 = kani::any();
    sh::alarm_codes(&mut ctx).alarm_codes = codes;
    sh::adaption_state(&mut ctx).adaption_state = state;
    sh::set_error_handler(&mut ctx, first);
    let mut copy = ctx.clone();
    check_user_data(&copy, len, b);
    let i: usize = kani::any();
    kani::assume(i < 16);
    assert!(sh::alarm_codes(&mut copy).alarm_codes[i] == codes[i]);
    assert!(sh::adaption_state(&mut copy).adaption_state.to_bits() == state.to_bits());
    check_lists(&copy, 0);

    // Changing either
    if kani::any() {
        change(&mut ctx);
        unchanged(&mut copy, len, b, i, codes, state);
    } else {
        change(&mut copy);
        unchanged(&mut ctx, len, b, i, codes, state);
    }
    witness!(true, "copied");
    std::mem::forget(ctx);
    std::mem::forget(copy);
}
/// Long texts and user data: `N` bytes, of which any one is arbitrary
fn long<const N: usize>() -> (usize, u8, Vec<u8>) {
    let (i, b): (usize, u8) = (kani::any(), kani::any());
    kani::assume(i < N && b < 0x80);
    let mut v = vec![0x5A; N];
    v[i] = b;
    (i, b, v)
}
fn reported_long<const N: usize>() {
    let mut ctx = Context::new(None);
    sh::set_error_handler(&mut ctx, first);
    let (i, b, v) = long::<N>();
    unsafe { G.at = i };
    ctx.signal_error(ErrorCode::Range, unsafe { String::from_utf8_unchecked(v) });
    unsafe {
        assert!(G.reports[0] == 1 && G.text_len == N && G.here == b);
    }
    witness!(i == N - 1 && b == 7, "the last character");
    std::mem::forget(ctx);
}
fn copied_long<const N: usize>() {
    let (i, b, v) = long::<N>();
    let ctx = Context::new(Some(v.into_boxed_slice()));
    let here = |c: &Context| match c.get_user_data() {
        Some(d) => d.len() == N && d[i] == b,
        None => false,
    };
    assert!(here(&ctx));
    let copy = ctx.clone();
    assert!(here(&copy) && here(&ctx));
    witness!(i == N - 1 && b == 7, "the last byte");
    std::mem::forget((ctx, copy));
}
fn change(ctx: &mut Context) {
    sh::alarm_codes(ctx).alarm_codes = kani::any();
    sh::adaption_state(ctx).adaption_state = kani::any();
    sh::set_error_handler(ctx, second);
}
fn unchanged(ctx: &mut Context, len: usize, b: [u8; 3], i: usize, codes: [u16; 16], state: f64) {
    check_user_data(ctx, len, b);
    assert!(sh::alarm_codes(ctx).alarm_codes[i] == codes[i]);
    assert!(sh::adaption_state(ctx).adaption_state.to_bits() == state.to_bits());
    let c: u8 = kani::any();
    let (tb, tn, t) = text();
    ctx.signal_error(code(c), t);
    check_report(0, ctx, c, tb, tn);
}

harnesses! {
    #[kani::unwind(12)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn chain_1() {
        chain::<1>();
    }
    #[kani::unwind(12)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn chain_2() {
        chain::<2>();
    }
    #[kani::unwind(12)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn chain_3() {
        chain::<3>();
    }
    #[kani::unwind(12)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn chain_5() {
        chain::<5>();
    }
    // C35
    #[kani::unwind(22)]
    fn kinds() {
        let kind: u8 = kani::any();
        kani::assume(kind < 9);
        let p = payload(kind);
        assert!(p.is_interpolation() == (kind == 0));
        assert!(p.is_parametric_curves() == (kind == 1));
        assert!(p.is_formatter() == (kind == 2));
        assert!(p.is_tag_type() == (kind == 3));
        assert!(p.is_tag() == (kind == 4));
        assert!(p.is_rendering_intent() == (kind == 5));
        assert!(p.is_multi_process_element() == (kind == 6));
        assert!(p.is_optimization() == (kind == 7));
        assert!(p.is_transform() == (kind == 8));
        witness!(kind == 8, "the last kind");
        std::mem::forget(p);
    }
    // C36
    #[kani::unwind(20)]
    fn defaults() {
        let (len, b) = any_data();
        let mut ctx = Context::new(user_data(len, b));
        check_user_data(&ctx, len, b);
        assert!(sh::adaption_state(&mut ctx).adaption_state == 1.0);
        let codes = sh::alarm_codes(&mut ctx).alarm_codes;
        let i: usize = kani::any();
        kani::assume(i < 16);
        assert!(codes[i] == if i < 3 { 0x7F00 } else { 0 });
        assert!(codes.len() == 16);
        check_lists(&ctx, 0);
        // the handler ignores what it is told
        let (_, _, t) = text();
        ctx.signal_error(code(kani::any()), t);
        check_user_data(&ctx, len, b);
        assert!(sh::alarm_codes(&mut ctx).alarm_codes[i] == codes[i]);
        assert!(sh::adaption_state(&mut ctx).adaption_state == 1.0);
        check_lists(&ctx, 0);
        witness!(len == 3 && i == 15, "with data");
        witness!(len == 0, "without data");
        std::mem::forget(ctx);
    }
    // C37: what a copy holds
    #[kani::unwind(20)]
    fn copied() {
        copied_with(0);
    }
    #[kani::unwind(20)]
    fn copied_data() {
        copied_with(3);
    }
    // C37: the plug-in lists
    #[kani::unwind(20)]
    fn copied_lists() {
        let mut ctx = Context::new(None);
        register_all(&mut ctx);
        let mut copy = ctx.clone();
        check_lists(&copy, 1);
        register_all(&mut copy);
        check_lists(&copy, 2);
        check_lists(&ctx, 1);
        witness!(true, "copied");
        std::mem::forget(ctx);
        std::mem::forget(copy);
    }
    #[kani::unwind(20)]
    fn copied_300() {
        copied_long::<300>();
    }
    // C38
    #[kani::unwind(20)]
    fn reported_300() {
        reported_long::<300>();
    }
    #[kani::unwind(20)]
    fn reported() {
        let mut ctx = Context::new(None);
        let mut other = Context::new(None);
        sh::set_error_handler(&mut ctx, first);
        sh::set_error_handler(&mut other, second);
        let c: u8 = kani::any();
        let (b, n, t) = text();
        if kani::any() {
            ctx.signal_error(code(c), t);
            check_report(0, &ctx, c, b, n);
        } else {
            other.signal_error(code(c), t);
            check_report(1, &other, c, b, n);
            witness!(n == 4 && c == 13, "full text");
        }
        std::mem::forget(ctx);
        std::mem::forget(other);
    }
}
