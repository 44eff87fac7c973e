//! Runs demo.py in an interpreter of this process, with up4 from the tree.
use pyo3::prelude::*;

extern "C" {
    fn PyInit_upppp_rust() -> *mut pyo3::ffi::PyObject;
}

const START: &str = r#"
import sys, types

class Anything(type):
    def __getattr__(cls, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return cls

class Stub(types.ModuleType):
    __path__ = []
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything(name, (object,), {})

class Layout:
    def __init__(self, said):
        self.__dict__.update(said)
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return None

class Figure:
    """stand-in for a figure of plotly: its traces and layout, and what was written"""
    def __init__(self, data=(), layout=None):
        self.data, self.layout, self.written = list(data), Layout(layout or {}), []
    def plotly_update(self, restyle_data=None, relayout_data=None, trace_indexes=None, **more):
        for t in self.data:
            t.update(restyle_data or {})
        self.layout.__dict__.update(relayout_data or {})
    def update_traces(self, patch=None, **more):
        for t in self.data:
            t.update(patch or {}, **more)
        return self
    def update_layout(self, dict1=None, **more):
        self.layout.__dict__.update(dict1 or {}, **more)
        return self
    def write_image(self, file, format=None, scale=None, width=None, height=None, **more):
        self.written.append((file, scale, width))

def from_json(value, output_type="Figure", skip_invalid=False, engine=None):
    import json
    said = json.loads(value)
    return Figure(said["data"], said.get("layout"))

sys.dont_write_bytecode = True
sys.path.insert(0, "@REPO@")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import upppp_rust
for name in ["plotly", "plotly.io", "plotly.graph_objects", "plotly.graph_objs", "plotly.express"]:
    sys.modules[name] = Stub(name)
sys.modules["plotly.io"].from_json = from_json
for name in ["plotly.graph_objects", "plotly.graph_objs"]:
    sys.modules[name].Figure = Figure
sys.modules["plotly"].io = sys.modules["plotly.io"]
sys.modules["plotly"].graph_objects = sys.modules["plotly.graph_objects"]
if not hasattr(upppp_rust, "RustPlotter2D"):
    upppp_rust.RustPlotter2D = type("RustPlotter2D", (object,), {})
"#;

pub fn run(script: &str) {
    unsafe {
        pyo3::ffi::PyImport_AppendInittab(c"upppp_rust".as_ptr(), Some(PyInit_upppp_rust));
    }
    pyo3::prepare_freethreaded_python();
    let r = Python::with_gil(|py| -> PyResult<()> {
        let g = pyo3::types::PyDict::new(py);
        py.run(START, Some(g), None)?;
        py.run(script, Some(g), None)
    });
    if let Err(e) = r {
        println!("DEMO: {}", e);
        std::process::exit(1);
    }
}
