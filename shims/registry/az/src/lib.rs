//! Stand-in for `az` (not available offline): only what the repo uses.
pub trait SaturatingCast<Dst> {
    fn saturating_cast(self) -> Dst;
}
pub trait SaturatingAs {
    fn saturating_as<Dst>(self) -> Dst
    where
        Self: SaturatingCast<Dst>;
}
impl<T> SaturatingAs for T {
    fn saturating_as<Dst>(self) -> Dst
    where
        Self: SaturatingCast<Dst>,
    {
        self.saturating_cast()
    }
}
