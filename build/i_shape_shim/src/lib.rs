pub use i_shape_orig::{base, fix, float};

pub mod int {
    pub use i_shape_orig::int::{area, count, path, reverse, shape, simple};

    /// Removes consecutive equal points of a closed contour; true if anything was removed.
    pub mod dedup {
        use i_float::int::point::IntPoint;

        pub trait DedupContour {
            fn dedup_contour(&mut self) -> bool;
        }

        impl DedupContour for Vec<IntPoint> {
            fn dedup_contour(&mut self) -> bool {
                let n = self.len();
                self.dedup();
                while self.len() > 1 && self.first() == self.last() {
                    self.pop();
                }
                n != self.len()
            }
        }
    }
}
