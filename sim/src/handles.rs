//! Iterator handles of every kind the library hands out, behind one interface.
use crate::obs::digest;
use pcics::capabilities::{Capabilities, CapabilityKind as K};
use pcics::extended_capabilities::secondary_pci_express::{EqualizationControlLanes, SecondaryPciExpress};
use pcics::extended_capabilities::{ExtendedCapabilities, ExtendedCapabilityKind as E};
use pcics::header::{Header, HeaderType};
use std::any::Any;
use std::fmt::Debug;

/// No list of this library is longer.
pub const LIMIT: usize = 2100;

pub trait Walk {
    fn kind(&self) -> &'static str;
    fn step(&mut self) -> Option<u64>;
    fn nth(&mut self, k: usize) -> Option<u64>;
    fn hint(&self) -> (usize, Option<usize>);
    fn dup(&self) -> Box<dyn Walk>;
    /// the items still to come
    fn rest(&self) -> Vec<u64>;
    /// by consuming, in one of several ways: the items it gives, out of those still to come
    fn drain(self: Box<Self>, how: u8) -> Vec<u64>;
    /// compared to a handle of the same kind, with `!=`
    fn differs(&self, other: &dyn Walk) -> Option<bool>;
    /// compared to a handle of the same kind
    fn same(&self, other: &dyn Walk) -> Option<bool>;
    fn any(&self) -> &dyn Any;
}

/// What [Walk::drain] has to give.
pub fn drained(rest: &[u64], how: u8) -> Vec<u64> {
    let every = |from: usize, step: usize| rest.iter().skip(from).step_by(step).copied().collect();
    match how % WAYS {
        0 => vec![rest.len() as u64],
        1 | 8 => rest.last().copied().into_iter().collect(),
        5 => every(1, 2),
        6 => every(0, 3),
        7 => every(2, 1),
        11 => rest.iter().skip(3).take(1).copied().collect(),
        12 | 13 => vec![rest.len() as u64],
        14 => vec![rest.len().checked_sub(1).unwrap_or(99) as u64],
        15 => rest.iter().skip(2).take(1).copied().collect(),
        16 => {
            let mut v: Vec<u64> = rest.iter().step_by(2).copied().collect();
            v.extend(rest.iter().skip(1).step_by(2));
            v
        }
        17 => rest.last().copied().into_iter().collect(),
        18 => rest.first().copied().into_iter().collect(),
        19 => vec![rest.len().saturating_sub(2) as u64],
        20 => rest.iter().skip(1).last().copied().into_iter().collect(),
        21 => vec![rest.len().div_ceil(2) as u64],
        22 => vec![rest.len().min(3) as u64],
        23 => vec![rest.len() as u64 + 1],
        24 => every(1, 3),
        _ => rest.to_vec(),
    }
}
pub const WAYS: u8 = 28;
fn drain<I: Iterator>(mut it: I, how: u8) -> Vec<u64>
where
    I::Item: Debug,
{
    let d = |x: I::Item| digest(&x);
    match how % WAYS {
        0 => vec![it.count() as u64],
        1 => it.last().map(d).into_iter().collect(),
        2 => it.fold(vec![], |mut v, x| {
            v.push(digest(&x));
            v
        }),
        3 => it.collect::<Vec<_>>().into_iter().map(d).collect(),
        4 => {
            let mut v = vec![];
            it.for_each(|x| v.push(digest(&x)));
            v
        }
        5 => it.skip(1).step_by(2).map(d).collect(),
        6 => it.step_by(3).map(d).collect(),
        7 => it.skip(2).collect::<Vec<_>>().into_iter().map(d).collect(),
        8 => it.reduce(|_, x| x).map(d).into_iter().collect(),
        9 => {
            let mut v: Vec<u64> = it.by_ref().take(2).map(d).collect();
            v.extend(it.map(d));
            v
        }
        10 => {
            let mut v = vec![];
            let _ = it.all(|x| {
                v.push(digest(&x));
                true
            });
            v
        }
        11 => it.find_map({
            let mut n = 0;
            move |x| {
                n += 1;
                (n == 4).then_some(x)
            }
        }).map(d).into_iter().collect(),
        13 => {
            let mut n = 0;
            let _ = it.any(|_| {
                n += 1;
                false
            });
            vec![n]
        }
        14 => {
            let mut n = 0;
            let all = it.position(|_| {
                n += 1;
                false
            });
            vec![if all.is_none() && n > 0 { n - 1 } else { 99 }]
        }
        15 => {
            let mut n = 0;
            it.find(|_| {
                n += 1;
                n == 3
            })
            .map(d)
            .into_iter()
            .collect()
        }
        16 => {
            let mut n = 0;
            let (a, b): (Vec<_>, Vec<_>) = it.partition(|_| {
                n += 1;
                n % 2 == 1
            });
            a.into_iter().chain(b).map(d).collect()
        }
        17 => it.max_by_key(|_| ()).map(d).into_iter().collect(),
        18 => it.min_by_key(|_| ()).map(d).into_iter().collect(),
        19 => vec![it.skip(2).count() as u64],
        20 => it.skip(1).last().map(d).into_iter().collect(),
        21 => vec![it.step_by(2).count() as u64],
        22 => vec![it.take(3).count() as u64],
        23 => vec![it.map(|_| ()).chain(Some(())).count() as u64],
        24 => it.skip(1).step_by(3).fold(vec![], |mut v, x| {
            v.push(digest(&x));
            v
        }),
        25 => {
            let mut v = vec![];
            let _ = it.try_for_each(|x| {
                v.push(digest(&x));
                Some(())
            });
            v
        }
        26 => it.zip(0u64..).map(|(x, _)| digest(&x)).collect(),
        27 => {
            let mut v = vec![];
            // one by one and then the rest at once
            v.extend(it.next().map(|x| digest(&x)));
            v.extend(it.next().map(|x| digest(&x)));
            it.fold((), |_, x| v.push(digest(&x)));
            v
        }
        _ => {
            let mut p = it.peekable();
            let mut n = 0;
            while p.peek().is_some() {
                p.next();
                n += 1;
            }
            vec![n]
        }
    }
}

struct It<I>(&'static str, I);
impl<I> Walk for It<I>
where
    I: Iterator + Clone + PartialEq + Debug + 'static,
    I::Item: Debug,
{
    fn kind(&self) -> &'static str {
        self.0
    }
    fn step(&mut self) -> Option<u64> {
        self.1.next().map(|x| digest(&x))
    }
    fn nth(&mut self, k: usize) -> Option<u64> {
        self.1.nth(k).map(|x| digest(&x))
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.1.size_hint()
    }
    fn dup(&self) -> Box<dyn Walk> {
        Box::new(It(self.0, self.1.clone()))
    }
    fn rest(&self) -> Vec<u64> {
        let mut it = self.1.clone();
        let mut v = vec![];
        while let Some(x) = it.next() {
            v.push(digest(&x));
            if v.len() > LIMIT {
                break;
            }
        }
        v
    }
    fn drain(self: Box<Self>, how: u8) -> Vec<u64> {
        drain(self.1, how)
    }
    fn differs(&self, other: &dyn Walk) -> Option<bool> {
        let o = other.any().downcast_ref::<It<I>>()?;
        Some(self.1 != o.1)
    }
    fn same(&self, other: &dyn Walk) -> Option<bool> {
        let o = other.any().downcast_ref::<It<I>>()?;
        Some(self.1 == o.1)
    }
    fn any(&self) -> &dyn Any {
        self
    }
}

/// This one cannot be cloned or compared: a copy is a new one, advanced as far.
struct Lanes {
    spe: SecondaryPciExpress<'static>,
    width: pcics::capabilities::pci_express::LinkWidth,
    it: EqualizationControlLanes<'static>,
    pos: usize,
}
impl Lanes {
    fn open(spe: &SecondaryPciExpress<'static>, width: pcics::capabilities::pci_express::LinkWidth, pos: usize) -> Lanes {
        let keep = spe.clone();
        let mut it = lanes(&keep, &width);
        for _ in 0..pos {
            it.next();
        }
        Lanes { spe: keep, width, it, pos }
    }
}
fn lanes(s: &SecondaryPciExpress<'static>, w: &pcics::capabilities::pci_express::LinkWidth) -> EqualizationControlLanes<'static> {
    s.equalization_control_lanes(w.clone())
}
impl Walk for Lanes {
    fn kind(&self) -> &'static str {
        "EqualizationControlLanes"
    }
    fn step(&mut self) -> Option<u64> {
        let r = self.it.next().map(|x| digest(&x));
        self.pos += 1;
        r
    }
    fn nth(&mut self, k: usize) -> Option<u64> {
        let r = self.it.nth(k).map(|x| digest(&x));
        self.pos += k + 1;
        r
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.it.size_hint()
    }
    fn dup(&self) -> Box<dyn Walk> {
        Box::new(Lanes::open(&self.spe, self.width.clone(), self.pos))
    }
    fn rest(&self) -> Vec<u64> {
        let c = Lanes::open(&self.spe, self.width.clone(), self.pos);
        c.it.take(LIMIT).map(|x| digest(&x)).collect()
    }
    fn drain(self: Box<Self>, how: u8) -> Vec<u64> {
        drain(self.it, how)
    }
    fn differs(&self, _: &dyn Walk) -> Option<bool> {
        None
    }
    fn same(&self, _: &dyn Walk) -> Option<bool> {
        None
    }
    fn any(&self) -> &dyn Any {
        self
    }
}

/// Keeps what handles point into.
#[derive(Default)]
pub struct Arena(Vec<Box<dyn Keep>>);
pub trait Keep {}
impl<T> Keep for T {}
impl Arena {
    /// The reference is good for as long as the arena: handles go first.
    pub fn keep<T: 'static>(&mut self, v: T) -> &'static T {
        let b = Box::new(v);
        let p: *const T = &*b;
        self.0.push(b);
        unsafe { &*p }
    }
}

pub fn caps(data: &'static [u8], h: &'static Header) -> Box<dyn Walk> {
    Box::new(It("Capabilities", Capabilities::new(data, h)))
}
pub fn ecaps(data: &'static [u8]) -> Box<dyn Walk> {
    Box::new(It("ExtendedCapabilities", ExtendedCapabilities::new(data)))
}
pub fn bars(h: &'static Header) -> Box<dyn Walk> {
    match &h.header_type {
        HeaderType::Normal(n) => Box::new(It("BaseAddresses<6>", n.base_addresses.clone())),
        HeaderType::Bridge(n) => Box::new(It("BaseAddresses<2>", n.base_addresses.clone())),
        HeaderType::Cardbus(n) => Box::new(It("BaseAddresses<1>", n.base_addresses.clone())),
        HeaderType::Reserved(_) => Box::new(It("BaseAddresses<0>", pcics::header::BaseAddresses::<0>::new([]))),
    }
}

/// Every iterator inside the decoded entries, in list order.
pub fn nested(data: &'static [u8], h: &'static Header, ext: &'static [u8], arena: &mut Arena) -> Vec<Box<dyn Walk>> {
    let mut v: Vec<Box<dyn Walk>> = vec![];
    for c in Capabilities::new(data, h).take(64).flatten() {
        if let K::EnhancedAllocation(s) = c.kind {
            v.push(Box::new(It("EnhancedAllocationEntries", s.entries)));
        }
    }
    for c in ExtendedCapabilities::new(ext).take(1000).flatten() {
        if v.len() >= 64 {
            break;
        }
        match c.kind {
            E::VirtualChannel(s) | E::VirtualChannelMfvcPresent(s) => {
                let s = arena.keep(s);
                v.push(Box::new(It("vc::ExtendedVirtualChannels", s.extended_virtual_channels())));
                v.push(Box::new(It("vc::VcArbitrationTable", s.vc_arbitration_table())));
                for e in s.extended_virtual_channels().flatten() {
                    let e = arena.keep(e);
                    v.push(Box::new(It("vc::PortArbitrationTable", s.port_arbitration_table(e))));
                }
            }
            E::MultifunctionVirtualChannel(s) => {
                if let Some(t) = &s.vc_arbitration_table {
                    v.push(Box::new(It("mfvc::VcArbitrationTable", t.clone())));
                }
                for e in s.extended_virtual_channels.clone() {
                    if let Some(t) = e.function_arbitration_table {
                        v.push(Box::new(It("mfvc::FunctionArbitrationTable", t)));
                    }
                }
                v.push(Box::new(It("mfvc::ExtendedVirtualChannels", s.extended_virtual_channels)));
            }
            E::ResizableBar(s) | E::VfResizableBar(s) => v.push(Box::new(It("ResizableBar", s))),
            E::AccessControlServices(s) => v.push(Box::new(It("EgressControlVectors", s.egress_control_vectors()))),
            E::ProtocolMultiplexing(s) => v.push(Box::new(It("PmuxProtocolArray", s.pmux_protocol_array))),
            E::RootComplexLinkDeclaration(s) => v.push(Box::new(It("LinkEntries", s.link_entries))),
            E::SingleRootIoVirtualization(s) => v.push(Box::new(It("SrIov BaseAddresses<6>", s.base_addresses))),
            E::SecondaryPciExpress(s) => {
                use pcics::capabilities::pci_express::LinkWidth as W;
                for w in [W::X1, W::X4, W::X16, W::X32] {
                    v.push(Box::new(Lanes::open(&s, w, 0)));
                }
            }
            _ => {}
        }
    }
    v
}
