//! Stand-in for `tower`: the node only stacks one CORS layer, which the simulated JSON-RPC server ignores.
#[derive(Clone, Debug, Default)]
pub struct ServiceBuilder<L>(L);

impl ServiceBuilder<()> {
    pub fn new() -> Self {
        ServiceBuilder(())
    }
}

impl<L> ServiceBuilder<L> {
    pub fn layer<T>(self, layer: T) -> ServiceBuilder<(T, L)> {
        ServiceBuilder((layer, self.0))
    }
}
