use std::ops::{Add, Mul, Neg, Sub};

pub fn pos2(x: f32, y: f32) -> Pos2 {
    Pos2 { x, y }
}

#[derive(Debug, Copy, Clone, PartialEq)]
pub struct Pos2 {
    pub x: f32,
    pub y: f32,
}

impl Pos2 {
    pub fn with_x(self, x: f32) -> Self {
        pos2(x, self.y)
    }

    pub fn with_y(self, y: f32) -> Self {
        pos2(self.x, y)
    }

    pub fn x(x: f32) -> Self {
        pos2(x, 0.0)
    }

    pub fn y(y: f32) -> Self {
        pos2(0.0, y)
    }
}

impl Add for Pos2 {
    type Output = Pos2;
    fn add(self, o: Self) -> Pos2 {
        pos2(self.x + o.x, self.y + o.y)
    }
}

impl Sub for Pos2 {
    type Output = Pos2;
    fn sub(self, o: Self) -> Pos2 {
        pos2(self.x - o.x, self.y - o.y)
    }
}

impl Mul<f32> for Pos2 {
    type Output = Pos2;
    fn mul(self, k: f32) -> Pos2 {
        pos2(self.x * k, self.y * k)
    }
}

impl Mul<Pos2> for Pos2 {
    type Output = Pos2;
    fn mul(self, o: Pos2) -> Pos2 {
        pos2(self.x * o.x, self.y * o.y)
    }
}

impl Neg for Pos2 {
    type Output = Pos2;
    fn neg(self) -> Pos2 {
        pos2(-self.x, -self.y)
    }
}
