@@impl particleswarm::<Particle as Agent>
    open spec fn s_param(&self) -> Vec<T> { self.coordinates }
    open spec fn s_goal(&self) -> f64 { self.value }
@@impl particleswarm::<Swarm as AlgorithmState>
    open spec fn s_best(&self) -> Option<(Vec<T>, f64)> { match self.best_particle { Some(p) => Some((p.coordinates, p.value)), None => None } }
    open spec fn s_iter(&self) -> usize { self.iteration }
@@impl particleswarm::<Swarm as AgentsState>
    open spec fn s_agents(&self) -> Seq<Particle<T>> { self.particles@ }
