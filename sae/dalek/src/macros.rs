macro_rules! binop {
    ($tr:ident, $f:ident, $tra:ident, $fa:ident, $l:ty, $r:ty, $o:ty, $e:expr) => {
        binop!($tr, $f, $l, $r, $o, $e);
        impl<'b> $tra<&'b $r> for $l { fn $fa(&mut self, rhs: &'b $r) { let l: $l = *self; *self = $e(&l, rhs); } }
        impl $tra<$r> for $l { fn $fa(&mut self, rhs: $r) { let l: $l = *self; *self = $e(&l, &rhs); } }
    };
    ($tr:ident, $f:ident, $l:ty, $r:ty, $o:ty, $e:expr) => {
        impl<'a, 'b> $tr<&'b $r> for &'a $l { type Output = $o; fn $f(self, rhs: &'b $r) -> $o { $e(self, rhs) } }
        impl<'b> $tr<&'b $r> for $l { type Output = $o; fn $f(self, rhs: &'b $r) -> $o { $e(&self, rhs) } }
        impl<'a> $tr<$r> for &'a $l { type Output = $o; fn $f(self, rhs: $r) -> $o { $e(self, &rhs) } }
        impl $tr<$r> for $l { type Output = $o; fn $f(self, rhs: $r) -> $o { $e(&self, &rhs) } }
    };
}
