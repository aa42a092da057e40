#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Scancode {
    Other,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[rustfmt::skip]
pub enum Keycode {
    A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T, U, V, W, X, Y, Z,
    Num0, Num1, Num2, Num3, Num4, Num5, Num6, Num7, Num8, Num9,
    Backspace, Delete, Insert, End, Escape, Home, Return, Return2, Tab, Space,
    Down, Left, Right, Up, PageDown, PageUp, KpEnter,
    F1, F2, F3, F4, F5, F6, F7, F8, F9, F10, F11, F12,
    LCtrl, RCtrl, LShift, RShift, LAlt, RAlt, CapsLock, NumLockClear, Menu, Pause, PrintScreen,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Mod(u16);

impl Mod {
    pub const NOMOD: Mod = Mod(0);
    pub const LSHIFTMOD: Mod = Mod(0x1);
    pub const RSHIFTMOD: Mod = Mod(0x2);
    pub const LCTRLMOD: Mod = Mod(0x40);
    pub const RCTRLMOD: Mod = Mod(0x80);
    pub const LALTMOD: Mod = Mod(0x100);
    pub const RALTMOD: Mod = Mod(0x200);
    pub const LGUIMOD: Mod = Mod(0x400);
    pub const RGUIMOD: Mod = Mod(0x800);
    pub const NUMMOD: Mod = Mod(0x1000);
    pub const CAPSMOD: Mod = Mod(0x2000);
    pub const MODEMOD: Mod = Mod(0x4000);

    pub const fn intersects(&self, other: Mod) -> bool {
        self.0 & other.0 != 0
    }
    pub const fn contains(&self, other: Mod) -> bool {
        self.0 & other.0 == other.0
    }
    pub const fn is_empty(&self) -> bool {
        self.0 == 0
    }
    pub const fn bits(&self) -> u16 {
        self.0
    }
}

impl std::ops::BitOr for Mod {
    type Output = Mod;
    fn bitor(self, other: Mod) -> Mod {
        Mod(self.0 | other.0)
    }
}

impl std::ops::BitAnd for Mod {
    type Output = Mod;
    fn bitand(self, other: Mod) -> Mod {
        Mod(self.0 & other.0)
    }
}
