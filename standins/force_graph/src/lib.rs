//! Stand-in for `force_graph`: keeps the nodes, does not move them.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct DefaultNodeIdx(usize);
#[derive(Clone, Debug, Default)]
pub struct SimulationParameters;
#[derive(Clone, Debug, Default)]
pub struct EdgeData<E = ()> {
    pub user_data: E,
}
#[derive(Clone, Debug)]
pub struct NodeData<N = ()> {
    pub x: f32,
    pub y: f32,
    pub mass: f32,
    pub is_anchor: bool,
    pub user_data: N,
}
#[derive(Clone, Debug)]
pub struct Node<N = ()> {
    pub data: NodeData<N>,
}
impl<N> Node<N> {
    pub fn x(&self) -> f32 {
        self.data.x
    }
    pub fn y(&self) -> f32 {
        self.data.y
    }
}
pub struct ForceGraph<N = (), E = ()> {
    nodes: Vec<Node<N>>,
    edges: Vec<(usize, usize, EdgeData<E>)>,
}
impl<N, E> ForceGraph<N, E> {
    pub fn new(_: SimulationParameters) -> Self {
        ForceGraph { nodes: vec![], edges: vec![] }
    }
    pub fn add_node(&mut self, data: NodeData<N>) -> DefaultNodeIdx {
        self.nodes.push(Node { data });
        DefaultNodeIdx(self.nodes.len() - 1)
    }
    pub fn add_edge(&mut self, a: DefaultNodeIdx, b: DefaultNodeIdx, data: EdgeData<E>) {
        self.edges.push((a.0, b.0, data));
    }
    pub fn update(&mut self, _dt: f32) {}
    pub fn visit_nodes<F: FnMut(&Node<N>)>(&self, mut f: F) {
        for n in &self.nodes {
            f(n)
        }
    }
}
