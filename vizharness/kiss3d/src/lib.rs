//! Stand-in for kiss3d 0.25: a window that draws nothing and reports, frame by frame, the points
//! it was asked to draw to the checking process (unix socket named by KUBA_VIZ_SOCKET), which
//! answers with one byte per frame: `n` render on, `q` quit.
extern crate nalgebra as na;

pub mod light {
    #[derive(Clone)]
    pub enum Light {
        Absolute(na::Point3<f32>),
        StickToCamera,
    }
}

pub mod window {
    use na::{Point2, Point3, Vector2};
    use std::io::{Read, Write};
    use std::os::unix::net::UnixStream;

    pub trait State: 'static {
        fn step(&mut self, window: &mut Window);
    }
    impl State for () {
        fn step(&mut self, _: &mut Window) {}
    }

    pub struct Window {
        out: UnixStream,
        points: Vec<[f32; 3]>,
        closed: bool,
    }

    impl Window {
        pub fn new(title: &str) -> Window {
            Window::new_with_size(title, 800, 600)
        }
        pub fn new_hidden(title: &str) -> Window {
            Window::new(title)
        }
        pub fn new_with_size(_title: &str, _width: u32, _height: u32) -> Window {
            let path = std::env::var("KUBA_VIZ_SOCKET").expect("KUBA_VIZ_SOCKET");
            Window { out: UnixStream::connect(path).expect("checker"), points: vec![], closed: false }
        }
        pub fn should_close(&self) -> bool {
            self.closed
        }
        pub fn is_closed(&self) -> bool {
            self.closed
        }
        pub fn close(&mut self) {
            self.closed = true;
        }
        pub fn width(&self) -> u32 {
            800
        }
        pub fn height(&self) -> u32 {
            600
        }
        pub fn size(&self) -> Vector2<u32> {
            Vector2::new(800, 600)
        }
        pub fn hide(&mut self) {}
        pub fn show(&mut self) {}
        pub fn set_title(&mut self, _title: &str) {}
        pub fn set_light(&mut self, _pos: crate::light::Light) {}
        pub fn set_point_size(&mut self, _pt_size: f32) {}
        pub fn set_line_width(&mut self, _w: f32) {}
        pub fn set_background_color(&mut self, _r: f32, _g: f32, _b: f32) {}
        pub fn set_framerate_limit(&mut self, _fps: Option<u64>) {}
        pub fn draw_line(&mut self, _a: &Point3<f32>, _b: &Point3<f32>, _color: &Point3<f32>) {}
        pub fn draw_planar_line(&mut self, _a: &Point2<f32>, _b: &Point2<f32>, _color: &Point3<f32>) {}
        pub fn draw_point(&mut self, pt: &Point3<f32>, _color: &Point3<f32>) {
            self.points.push([pt[0], pt[1], pt[2]]);
        }
        pub fn render(&mut self) -> bool {
            let mut m = Vec::with_capacity(4 + 12 * self.points.len());
            m.extend_from_slice(&(self.points.len() as u32).to_le_bytes());
            for p in self.points.drain(..) {
                for v in p.iter() {
                    m.extend_from_slice(&v.to_le_bytes());
                }
            }
            let mut answer = [0u8];
            if self.out.write_all(&m).and_then(|_| self.out.read_exact(&mut answer)).is_err() || answer[0] == b'q' {
                std::process::exit(0);
            }
            !self.closed
        }
        pub fn render_with_state<S: State>(&mut self, state: &mut S) -> bool {
            state.step(self);
            self.render()
        }
        pub fn render_loop<S: State>(mut self, mut state: S) {
            while self.render_with_state(&mut state) {}
        }
    }
}
