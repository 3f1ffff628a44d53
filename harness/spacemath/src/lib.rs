//! Stand-in for the crate `spacemath`, which /repo depends on by path and which is not part of
//! this sandbox.  It provides exactly the items /repo uses, with the obvious meaning:
//! plane points and vectors, closed segments, circles, oriented triangles.
//! It is part of the trusted base of the mesher / file checks (see DESIGN.md).

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Orient {
    Positive,
    Negative,
    Zero,
}

impl Orient {
    pub fn from_val(x: f64) -> Self {
        if x > 0.0 {
            Orient::Positive
        } else if x < 0.0 {
            Orient::Negative
        } else {
            Orient::Zero
        }
    }

    pub fn is_nonzero(self) -> bool {
        self != Orient::Zero
    }

    pub fn is_positive(self) -> bool {
        self == Orient::Positive
    }

    pub fn is_negative(self) -> bool {
        self == Orient::Negative
    }
}

pub mod two {
    use super::Orient;
    use std::ops::{Add, AddAssign, Div, Mul, Neg, Sub, SubAssign};

    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct Point {
        pub x: f64,
        pub y: f64,
    }

    impl Point {
        pub fn new(x: f64, y: f64) -> Self {
            Self { x, y }
        }
        pub fn dot(self, o: Self) -> f64 {
            self.x * o.x + self.y * o.y
        }
        pub fn cross(self, o: Self) -> f64 {
            self.x * o.y - self.y * o.x
        }
        pub fn norm(self) -> f64 {
            self.x.hypot(self.y)
        }
        pub fn mid(self, o: Self) -> Self {
            Self::new((self.x + o.x) / 2.0, (self.y + o.y) / 2.0)
        }
        pub fn to_unit(self) -> Self {
            let n = self.norm();
            Self::new(self.x / n, self.y / n)
        }
    }

    impl From<(f64, f64)> for Point {
        fn from(t: (f64, f64)) -> Self {
            Self::new(t.0, t.1)
        }
    }
    impl From<Point> for (f64, f64) {
        fn from(p: Point) -> Self {
            (p.x, p.y)
        }
    }
    impl Add for Point {
        type Output = Self;
        fn add(self, o: Self) -> Self {
            Self::new(self.x + o.x, self.y + o.y)
        }
    }
    impl AddAssign for Point {
        fn add_assign(&mut self, o: Self) {
            *self = *self + o;
        }
    }
    impl Sub for Point {
        type Output = Self;
        fn sub(self, o: Self) -> Self {
            Self::new(self.x - o.x, self.y - o.y)
        }
    }
    impl SubAssign for Point {
        fn sub_assign(&mut self, o: Self) {
            *self = *self - o;
        }
    }
    impl Neg for Point {
        type Output = Self;
        fn neg(self) -> Self {
            Self::new(-self.x, -self.y)
        }
    }
    impl Mul<f64> for Point {
        type Output = Self;
        fn mul(self, k: f64) -> Self {
            Self::new(self.x * k, self.y * k)
        }
    }
    impl Div<f64> for Point {
        type Output = Self;
        fn div(self, k: f64) -> Self {
            Self::new(self.x / k, self.y / k)
        }
    }

    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct Segment {
        pub p: Point,
        pub q: Point,
    }
    impl Segment {
        pub fn new(p: Point, q: Point) -> Self {
            Self { p, q }
        }
    }
    impl From<(Point, Point)> for Segment {
        fn from(t: (Point, Point)) -> Self {
            Self::new(t.0, t.1)
        }
    }

    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct Circle {
        pub c: Point,
        pub r: f64,
    }
    impl Circle {
        pub fn new(c: Point, r: f64) -> Self {
            Self { c, r }
        }
        pub fn contains(&self, p: Point) -> bool {
            use dist::Dist;
            self.c.dist(p) <= self.r
        }
    }

    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct Triangle {
        pub a: Point,
        pub b: Point,
        pub c: Point,
    }
    impl From<(Point, Point, Point)> for Triangle {
        fn from(t: (Point, Point, Point)) -> Self {
            Self {
                a: t.0,
                b: t.1,
                c: t.2,
            }
        }
    }
    impl Triangle {
        /// twice the signed area
        fn det(&self) -> f64 {
            (self.b - self.a).cross(self.c - self.a)
        }
        /// counterclockwise is positive
        pub fn dir(&self) -> Orient {
            // a relative guard: rounding in the coordinates of exactly collinear points must not
            // count as an orientation
            let d = self.det();
            let m = (self.b - self.a).norm() * (self.c - self.a).norm();
            if d.abs() <= m * 1e-12 {
                Orient::Zero
            } else {
                Orient::from_val(d)
            }
        }
        pub fn area(&self) -> f64 {
            self.det() / 2.0
        }
        pub fn circumradius(&self) -> f64 {
            let la = (self.b - self.c).norm();
            let lb = (self.c - self.a).norm();
            let lc = (self.a - self.b).norm();
            la * lb * lc / (2.0 * self.det().abs())
        }
    }

    pub mod dist {
        use super::{Point, Segment};

        pub trait Dist<T> {
            fn dist(self, other: T) -> f64;
        }

        impl Dist<Point> for Point {
            fn dist(self, o: Point) -> f64 {
                (self - o).norm()
            }
        }

        impl Dist<Point> for Segment {
            fn dist(self, x: Point) -> f64 {
                let d = self.q - self.p;
                let l2 = d.dot(d);
                if l2 == 0.0 {
                    return self.p.dist(x);
                }
                let t = ((x - self.p).dot(d) / l2).max(0.0).min(1.0);
                (self.p + d * t).dist(x)
            }
        }

        impl Dist<Segment> for Point {
            fn dist(self, s: Segment) -> f64 {
                s.dist(self)
            }
        }
    }

    pub mod intersect {
        use super::super::Orient;
        use super::{Point, Segment};

        pub trait Intersect<T: ?Sized> {
            /// Zero when the shapes share no point
            fn intersects(&self, other: &T) -> Orient;
        }

        fn side(a: Point, b: Point, c: Point) -> f64 {
            (b - a).cross(c - a)
        }

        fn on(s: &Segment, x: Point) -> bool {
            x.x >= s.p.x.min(s.q.x)
                && x.x <= s.p.x.max(s.q.x)
                && x.y >= s.p.y.min(s.q.y)
                && x.y <= s.p.y.max(s.q.y)
        }

        impl Intersect<Segment> for Segment {
            fn intersects(&self, o: &Segment) -> Orient {
                let d1 = side(self.p, self.q, o.p);
                let d2 = side(self.p, self.q, o.q);
                let d3 = side(o.p, o.q, self.p);
                let d4 = side(o.p, o.q, self.q);
                let proper = ((d1 > 0.0 && d2 < 0.0) || (d1 < 0.0 && d2 > 0.0))
                    && ((d3 > 0.0 && d4 < 0.0) || (d3 < 0.0 && d4 > 0.0));
                let touch = (d1 == 0.0 && on(self, o.p))
                    || (d2 == 0.0 && on(self, o.q))
                    || (d3 == 0.0 && on(o, self.p))
                    || (d4 == 0.0 && on(o, self.q));
                if proper || touch {
                    Orient::Positive
                } else {
                    Orient::Zero
                }
            }
        }
    }
}
