//! C20 to C22: the tag directory and equality of profiles, from arbitrary states
#[cfg(not(kani))]
use crate::kani;
use crate::profile::{fake_format, fixed_now};
use crate::{harnesses, witness};
use lcms2::types::{verif_hooks as vh, Profile, Signature};

fn any_sig() -> Signature {
    Signature::from(kani::any::<u32>())
}

/// What looking `sig` up in a profile with at most `N` tags must give
pub fn check_search<const N: usize>(p: &Profile, sig: Signature) {
    let n = p.get_tag_count();
    assert!(n <= N);
    // copied, as the solver does better on short arrays
    let mut tags = [vh::tag(p, 0); N];
    let mut i = 1;
    while i < N {
        tags[i] = vh::tag(p, i);
        i += 1;
    }
    let mut first = None;
    let mut unique = true;
    let mut i = N;
    while i > 0 {
        i -= 1;
        if i < n {
            let name = u32::from(tags[i].name);
            if name == u32::from(sig) {
                first = Some(i);
            }
            let mut j = 0;
            while j < i {
                unique &= u32::from(tags[j].name) != name;
                j += 1;
            }
        }
    }
    assert!(vh::search_tag(p, sig, false) == first);
    let followed = vh::search_tag(p, sig, true);
    assert!(followed.is_some() == first.is_some());
    if let (Some(a), Some(b)) = (first, followed) {
        assert!(b < n && b <= a);
        let (from, to) = (tags[a], tags[b]);
        assert!(to.linked.is_none());
        if unique {
            assert!(to.offset == from.offset && to.size == from.size);
        }
        witness!(a == N - 1 && b + 1 == a, "linked");
    }
}

/// A directory as opening a profile leaves it: see C19
fn directory<const N: usize>() -> Profile {
    let mut p = Profile::new();
    let n: usize = kani::any();
    kani::assume(n <= N);
    let mut i = 0;
    while i < N {
        let (size, offset): (u32, u32) = (kani::any(), kani::any());
        let mut linked = None;
        let mut j = 0;
        while j < i {
            let u = vh::tag(&p, j);
            // The name of any of those that share the data
            if u.size == size as usize && u.offset == offset as usize && (linked.is_none() || kani::any()) {
                linked = Some(u.name);
            }
            j += 1;
        }
        vh::set_tag(
            &mut p,
            i,
            vh::TagState { name: any_sig(), linked, size: size as usize, offset: offset as usize, save_as_raw: false },
        );
        i += 1;
    }
    vh::set_tag_count(&mut p, n);
    p
}

fn search<const N: usize>() {
    let p = directory::<N>();
    check_search::<N>(&p, any_sig());
    std::mem::forget(p);
}

fn any_header(created: chrono::NaiveDateTime) -> vh::HeaderState {
    vh::HeaderState {
        created,
        version: kani::any(),
        device_class: any_sig(),
        color_space: any_sig(),
        pcs: any_sig(),
        rendering_intent: kani::any(),
        flags: kani::any(),
        manufacturer: kani::any(),
        model: kani::any(),
        attributes: kani::any(),
        creator: kani::any(),
        profile_id: lcms2::types::ProfileID { id8: kani::any() },
        is_write: kani::any(),
    }
}
fn any_tag() -> vh::TagState {
    vh::TagState {
        name: any_sig(),
        linked: if kani::any() { Some(any_sig()) } else { None },
        size: kani::any(),
        offset: kani::any(),
        save_as_raw: kani::any(),
    }
}
fn same_header(a: &vh::HeaderState, b: &vh::HeaderState) -> bool {
    let mut ids = true;
    let mut i = 0;
    while i < 16 {
        ids &= unsafe { a.profile_id.id8[i] == b.profile_id.id8[i] };
        i += 1;
    }
    ids && a.created == b.created
        && a.version == b.version
        && u32::from(a.device_class) == u32::from(b.device_class)
        && u32::from(a.color_space) == u32::from(b.color_space)
        && u32::from(a.pcs) == u32::from(b.pcs)
        && a.rendering_intent == b.rendering_intent
        && a.flags == b.flags
        && a.manufacturer == b.manufacturer
        && a.model == b.model
        && a.attributes == b.attributes
        && a.creator == b.creator
        && a.is_write == b.is_write
}
fn same_tag(a: &vh::TagState, b: &vh::TagState) -> bool {
    u32::from(a.name) == u32::from(b.name)
        && a.linked.map(u32::from) == b.linked.map(u32::from)
        && a.size == b.size
        && a.offset == b.offset
        && a.save_as_raw == b.save_as_raw
}

/// C22: two profiles, with arbitrary headers, of which the directories may differ at place `k`
fn equality(k: usize) {
    let (mut p, mut q) = (Profile::new(), Profile::new());
    let t0 = fixed_now().naive_utc();
    let other: bool = kani::any();
    let t1 = if other { t0 + chrono::Duration::seconds(1) } else { t0 };
    let (a, b) = (any_header(t0), any_header(t1));
    vh::set_header(&mut p, a);
    vh::set_header(&mut q, b);
    let (t, u) = (any_tag(), any_tag());
    vh::set_tag(&mut p, k, t);
    vh::set_tag(&mut q, k, u);
    let (n, m): (usize, usize) = (kani::any(), kani::any());
    kani::assume(k < n && n <= 100 && k < m && m <= 100);
    vh::set_tag_count(&mut p, n);
    vh::set_tag_count(&mut q, m);
    let same = same_header(&a, &b) && same_tag(&t, &u) && n == m;
    assert!((p == q) == same);
    witness!(same, "equal");
    witness!(!same && same_header(&a, &b) && n == m, "only the tag differs");
    std::mem::forget(p);
    std::mem::forget(q);
}

harnesses! {
    #[kani::unwind(5)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn search_3() {
        search::<3>();
    }
    #[kani::unwind(6)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn search_4() {
        search::<4>();
    }
    #[kani::unwind(8)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    #[kani::stub(std::fmt::format, fake_format)]
    fn search_6() {
        search::<6>();
    }
    // C21: one slot of the directory is told from the others
    #[kani::unwind(20)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    fn nth() {
        let mut p = Profile::new();
        let (k, count, n): (usize, usize, usize) = (kani::any(), kani::any(), kani::any());
        kani::assume(k < 100 && count <= 100);
        let mut t = any_tag();
        t.save_as_raw = false;
        vh::set_tag(&mut p, k, t);
        vh::set_tag_count(&mut p, count);
        assert!(p.get_tag_count() == count);
        let s = u32::from(p.get_tag_signature(n));
        let blank = u32::from_be_bytes([0; 4]);
        if n < count && n == k {
            assert!(s == u32::from(t.name));
            witness!(n == 99, "the last of a full directory");
        } else {
            assert!(s == u32::from(Signature::default()));
            witness!(n == 100 && count == 100, "one past a full directory");
        }
        std::mem::forget(p);
    }
    // C22
    #[kani::unwind(802)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    fn equality_first() {
        equality(0);
    }
    #[kani::unwind(802)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    fn equality_second() {
        equality(1);
    }
    #[kani::unwind(802)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    fn equality_last() {
        equality(99);
    }
    #[kani::unwind(802)]
    #[kani::stub(chrono::Utc::now, fixed_now)]
    fn equality_any() {
        let k = kani::any();
        kani::assume(k < 100);
        equality(k);
    }
}
