//! Stand-in for the plotting backend: takes traces, tells them as JSON as the backend
//! does, and shows nothing but keeps what it was asked to show.
use std::cell::RefCell;
use std::fmt::Write;

/// Something that has a place in a figure's JSON.
pub trait Json {
    fn json(&self) -> String;
}
impl Json for f64 {
    fn json(&self) -> String {
        if self.is_finite() {
            format!("{:?}", self)
        } else {
            "null".into()
        }
    }
}
impl Json for bool {
    fn json(&self) -> String {
        self.to_string()
    }
}
impl Json for usize {
    fn json(&self) -> String {
        self.to_string()
    }
}
impl Json for String {
    fn json(&self) -> String {
        let mut s = String::from("\"");
        for c in self.chars() {
            match c {
                '"' | '\\' => s.extend(['\\', c]),
                c if (c as u32) < 32 => write!(s, "\\u{:04x}", c as u32).unwrap(),
                c => s.push(c),
            }
        }
        s.push('"');
        s
    }
}
impl<T: Json> Json for Vec<T> {
    fn json(&self) -> String {
        format!("[{}]", self.iter().map(|x| x.json()).collect::<Vec<_>>().join(","))
    }
}

/// A JSON object under construction; a name said twice has its last value.
#[derive(Clone, Debug, Default)]
struct Object(Vec<(&'static str, String)>);
impl Object {
    fn set(&mut self, name: &'static str, value: String) {
        self.0.retain(|x| x.0 != name);
        self.0.push((name, value));
    }
}
impl Json for Object {
    fn json(&self) -> String {
        let v: Vec<String> = self.0.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
        format!("{{{}}}", v.join(","))
    }
}

pub trait Trace {
    fn to_json(&self) -> String;
}

/// Builders: `name(value) -> Self`, kept under its name in the JSON.
macro_rules! object {
    ($t:ident { $($f:ident : $v:ty => $k:literal),* $(,)? }) => {
        #[derive(Clone, Debug, Default)]
        pub struct $t(crate::Object);
        impl $t {
            pub fn new() -> Self {
                Self::default()
            }
            $(pub fn $f(mut self, v: $v) -> Self {
                self.0.set($k, crate::Json::json(&v));
                self
            })*
        }
        impl crate::Json for $t {
            fn json(&self) -> String {
                self.0.json()
            }
        }
    };
}
macro_rules! word {
    ($t:ident { $($v:ident => $k:literal),* $(,)? }) => {
        #[derive(Clone, Copy, Debug)]
        pub enum $t { $($v),* }
        impl crate::Json for $t {
            fn json(&self) -> String {
                match self { $($t::$v => concat!("\"", $k, "\"").into()),* }
            }
        }
    };
}

pub mod color {
    word!(NamedColor { Black => "black", White => "white", Red => "red", Blue => "blue", Grey => "grey" });
    pub trait Color: crate::Json {}
    impl Color for NamedColor {}
    impl Color for String {}
}
use color::Color;

pub mod common {
    use super::*;
    word!(Mode { Lines => "lines", Markers => "markers", LinesMarkers => "lines+markers", None => "none" });
    word!(Fill { ToSelf => "toself", ToZeroX => "tozerox", ToZeroY => "tozeroy", ToNextX => "tonextx", ToNextY => "tonexty", ToNext => "tonext", None => "none" });
    word!(MarkerSymbol { Circle => "circle", Square => "square", Cross => "cross", X => "x", Diamond => "diamond" });
    #[derive(Clone, Debug)]
    pub struct ColorScaleElement(pub f64, pub String);
    impl Json for ColorScaleElement {
        fn json(&self) -> String {
            format!("[{},{}]", self.0.json(), self.1.json())
        }
    }
    #[derive(Clone, Debug)]
    pub enum ColorScale {
        Vector(Vec<ColorScaleElement>),
    }
    impl Json for ColorScale {
        fn json(&self) -> String {
            let ColorScale::Vector(v) = self;
            v.json()
        }
    }
    object!(ColorBar {});
    object!(Line { width: f64 => "width" });
    impl Line {
        pub fn color<C: Color>(mut self, c: C) -> Self {
            self.0.set("color", c.json());
            self
        }
    }
    object!(Marker {
        cmin: f64 => "cmin",
        cmax: f64 => "cmax",
        color_bar: ColorBar => "colorbar",
        color_scale: ColorScale => "colorscale",
        show_scale: bool => "showscale",
        size: usize => "size",
        symbol: MarkerSymbol => "symbol",
        reverse_scale: bool => "reversescale",
        opacity: f64 => "opacity",
    });
    impl Marker {
        pub fn color<C: Color>(mut self, c: C) -> Self {
            self.0.set("color", c.json());
            self
        }
    }
}
use common::*;

pub mod layout {
    pub mod themes {
        pub static PLOTLY_WHITE: &super::Template = &super::Template;
        pub static PLOTLY: &super::Template = &super::Template;
    }
    #[derive(Clone, Debug)]
    pub struct Template;
    #[derive(Clone, Debug, Default)]
    pub struct Layout(crate::Object);
    impl Layout {
        pub fn new() -> Layout {
            Layout::default()
        }
        pub fn template(mut self, _t: &Template) -> Layout {
            self.0.set("template", "{}".into());
            self
        }
    }
    impl crate::Json for Layout {
        fn json(&self) -> String {
            self.0.json()
        }
    }
}
pub use layout::Layout;

/// A kind of trace with its data x, y and maybe z.
macro_rules! trace {
    ($t:ident $k:literal <$($p:ident = $d:ty),*> ($($a:ident : $ap:ident),*) { $($f:ident : $v:ty => $n:literal),* $(,)? }) => {
        #[derive(Clone, Debug)]
        pub struct $t<$($p = $d),*> {
            said: Object,
            kinds: std::marker::PhantomData<($($p,)*)>,
        }
        impl<$($p: Json),*> $t<$($p),*> {
            pub fn new($($a: Vec<$ap>),*) -> Box<Self> {
                let mut said = Object::default();
                said.set("type", concat!("\"", $k, "\"").into());
                $(said.set(stringify!($a), $a.json());)*
                Box::new($t { said, kinds: std::marker::PhantomData })
            }
            $(pub fn $f(mut self: Box<Self>, v: $v) -> Box<Self> {
                self.said.set($n, Json::json(&v));
                self
            })*
        }
        impl<$($p),*> Trace for $t<$($p),*> {
            fn to_json(&self) -> String {
                self.said.json()
            }
        }
    };
}
trace!(HeatMap "heatmap" <X = f64, Y = f64, Z = f64> (x: X, y: Y, z: Z) {
    color_scale: ColorScale => "colorscale",
    color_bar: ColorBar => "colorbar",
    show_scale: bool => "showscale",
    reverse_scale: bool => "reversescale",
    transpose: bool => "transpose",
    zmin: f64 => "zmin",
    zmax: f64 => "zmax",
    zauto: bool => "zauto",
});
trace!(Contour "contour" <Z = f64, X = f64, Y = f64> (x: X, y: Y, z: Z) {
    color_scale: ColorScale => "colorscale",
    contours: contour::Contours => "contours",
    auto_contour: bool => "autocontour",
    n_contours: usize => "ncontours",
    show_scale: bool => "showscale",
    reverse_scale: bool => "reversescale",
    transpose: bool => "transpose",
});
trace!(Scatter "scatter" <X = f64, Y = f64> (x: X, y: Y) {
    mode: Mode => "mode",
    show_legend: bool => "showlegend",
    fill: Fill => "fill",
    line: Line => "line",
    marker: Marker => "marker",
    opacity: f64 => "opacity",
});
impl<X: Json, Y: Json> Scatter<X, Y> {
    pub fn fill_color<C: Color>(mut self: Box<Self>, c: C) -> Box<Self> {
        self.said.set("fillcolor", c.json());
        self
    }
    pub fn name(mut self: Box<Self>, n: &str) -> Box<Self> {
        self.said.set("name", n.to_string().json());
        self
    }
}
pub mod contour {
    object!(Contours { start: f64 => "start", end: f64 => "end", size: f64 => "size", show_lines: bool => "showlines" });
}
pub mod traces {
    pub mod heat_map {
        pub use crate::HeatMap;
    }
}

thread_local! {
    static SHOWN: RefCell<Option<String>> = const { RefCell::new(None) };
}
/// The figure that was shown last, told once.
pub fn shown() -> Option<String> {
    SHOWN.with(|s| s.borrow_mut().take())
}

#[derive(Default)]
pub struct Plot {
    traces: Vec<Box<dyn Trace>>,
    layout: Layout,
}
impl Plot {
    pub fn new() -> Plot {
        Plot::default()
    }
    pub fn use_local_plotly(&mut self) {}
    pub fn add_trace(&mut self, t: Box<dyn Trace>) {
        self.traces.push(t);
    }
    pub fn set_layout(&mut self, l: Layout) {
        self.layout = l;
    }
    pub fn to_json(&self) -> String {
        let v: Vec<String> = self.traces.iter().map(|t| t.to_json()).collect();
        format!("{{\"data\":[{}],\"layout\":{}}}", v.join(","), self.layout.json())
    }
    pub fn show(&self) {
        SHOWN.with(|s| *s.borrow_mut() = Some(self.to_json()));
    }
}
