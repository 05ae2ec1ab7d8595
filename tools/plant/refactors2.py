"""more behaviour-preserving edits (see refactors.py)"""
from refactors import *
import refactors
refactors.R.clear()
LG = 'optlib/src/tools/logging/mod.rs'
r('r-min-cmp-tuple', 'C02,C04', (G, '''        if goal_1.is_nan() && goal_2.is_nan() {
            Ordering::Greater
        } else if goal_1.is_nan() {
            Ordering::Greater
        } else if goal_2.is_nan() {
            Ordering::Less
        } else {
            goal_1.partial_cmp(&goal_2).unwrap()
        }''', '''        match (goal_1.is_nan(), goal_2.is_nan()) {
            (true, _) => Ordering::Greater,
            (false, true) => Ordering::Less,
            (false, false) => goal_1.partial_cmp(&goal_2).unwrap(),
        }'''))
r('r-max-cmp-unwrap-or', 'C02,C04', (G, '''        if goal_1.is_nan() && goal_2.is_nan() {
            Ordering::Less
        } else if goal_1.is_nan() {
            Ordering::Less
        } else if goal_2.is_nan() {
            Ordering::Greater
        } else {
            goal_1.partial_cmp(&goal_2).unwrap()
        }''', '''        let when_nan = if goal_1.is_nan() { Ordering::Less } else { Ordering::Greater };
        goal_1.partial_cmp(&goal_2).unwrap_or(when_nan)'''))
r('r-update-direct', 'C02,C04', (G, '''        let best = self
            .individuals
            .iter()
            .min_by(|ind_1, ind_2| self.individuals_min_cmp(ind_1, ind_2));

        if let Some(ref individual) = best {
            self.best_individual = Some((*individual).clone());
        }
''', '''        if let Some(individual) = self
            .individuals
            .iter()
            .min_by(|a, b| self.individuals_min_cmp(a, b))
        {
            self.best_individual = Some(individual.clone());
        }
'''))
r('r-update-cloned', 'C02,C04', (G, '''        let best = self
            .individuals
            .iter()
            .min_by(|ind_1, ind_2| self.individuals_min_cmp(ind_1, ind_2));

        if let Some(ref individual) = best {
            self.best_individual = Some((*individual).clone());
        }
''', '''        let best = self
            .individuals
            .iter()
            .min_by(|ind_1, ind_2| self.individuals_min_cmp(ind_1, ind_2))
            .cloned();

        if best.is_some() {
            self.best_individual = best;
        }
'''))
r('r-update-empty', 'C02,C04', (G, '''        // Update the best individual
        let best''', '''        if self.individuals.is_empty() {
            return;
        }

        // Update the best individual
        let best'''))
r('r-agents-for-ref', 'C28', (G, '''        for individual in self.individuals.iter() {
            agents.push(individual);
        }
''', '''        for n in 0..self.individuals.len() {
            agents.push(&self.individuals[n]);
        }
'''))
r('r-reset-vec', GA, (G, '''        self.individuals.clear();
        self.best_individual = None;
        self.worst_individual = None;
        self.iteration = 0;''', '''        self.individuals = vec![];
        self.iteration = 0;
        self.best_individual = None;
        self.worst_individual = None;'''))
r('r-push-order', GA, (G, '''        let fitness = self.goal.get(&chromosomes);
        let new_individual = Individual {
            chromosomes,
            fitness,
            alive: true,
        };

        self.individuals.push(new_individual);''', '''        let goal_value = self.goal.get(&chromosomes);
        self.individuals.push(Individual {
            alive: true,
            fitness: goal_value,
            chromosomes,
        });'''))
r('r-append-for-each', GA, (G, '''        for chromosome in chromosomes_list {
            self.push(chromosome);
        }''', '''        chromosomes_list.into_iter().for_each(|chromosome| self.push(chromosome));'''))
r('r-append-reserve', GA, (G, '''        for chromosome in chromosomes_list {
            self.push(chromosome);
        }''', '''        self.individuals.reserve(chromosomes_list.len());
        for chromosome in chromosomes_list.into_iter() {
            self.push(chromosome);
        }'''))
r('r-run-split', GA, (G, '''            // Create new individuals by new chromosomes and add new individuals to population
            self.population.append(children_mutants);

            // Selection
            for selection in &mut self.selections {
                selection.kill(&mut self.population);
            }

            self.population.remove_dead();
''', '''            self.population.append(children_mutants);
            self.select();
''', ), (G, '''    fn run_pairing(&mut self) -> Vec<T> {''', '''    /// Kill individuals and remove them from the population.
    fn select(&mut self) {
        for selection in self.selections.iter_mut() {
            selection.kill(&mut self.population);
        }
        self.population.remove_dead();
    }

    fn run_pairing(&mut self) -> Vec<T> {'''))
r('r-run-log-helpers', GA, (G, '''            for logger in &mut self.loggers {
                logger.next_iteration(&self.population);
            }
        }

        for logger in &mut self.loggers {
            logger.finish(&self.population);
        }
''', '''            self.log_iteration();
        }

        self.log_finish();
'''), (G, '''    fn run_pairing(&mut self) -> Vec<T> {''', '''    fn log_iteration(&mut self) {
        for logger in &mut self.loggers {
            logger.next_iteration(&self.population);
        }
    }

    fn log_finish(&mut self) {
        for logger in &mut self.loggers {
            logger.finish(&self.population);
        }
    }

    fn run_pairing(&mut self) -> Vec<T> {'''))
r('r-pairing-cross-let', GA, (G, '''            let mut cross_chromosomes = Vec::with_capacity(pair.len());
            for i in pair {
                cross_chromosomes.push(self.population[i].get_chromosomes());
            }

            let mut child_chromosomes = self.cross.cross(&cross_chromosomes);
            new_chromosomes.append(&mut child_chromosomes);''', '''            let population = &self.population;
            let parents: Vec<&T> = pair
                .into_iter()
                .map(|index| population[index].get_chromosomes())
                .collect();

            for child in self.cross.cross(&parents) {
                new_chromosomes.push(child);
            }'''))
r('r-mutants-shared', GA, (G, '''            let mut children_chromo_list = self.run_pairing();

            // Mutation
            let mut children_mutants: Vec<T> = children_chromo_list
                .iter_mut()
                .map(|chromo| self.mutation.mutation(chromo))
                .collect();''', '''            let children = self.run_pairing();

            // Mutation
            let mut children_mutants: Vec<T> = Vec::with_capacity(children.len());
            for child in &children {
                let mutant = self.mutation.mutation(child);
                children_mutants.push(mutant);
            }'''))
r('r-len-alive-fold', 'C03,C28', (G, '''        self.individuals
            .iter()
            .filter(|individual| individual.is_alive())
            .count()''', '''        self.individuals
            .iter()
            .fold(0, |count, individual| if individual.is_alive() { count + 1 } else { count })'''))
r('r-is-worse-nan', 'C03,C04', (S, '''    fitness_1 > fitness_2 || (fitness_1.is_nan() && !fitness_2.is_nan())''', '''    if fitness_1.is_nan() {
        return !fitness_2.is_nan();
    }
    fitness_1 > fitness_2'''))
r('r-limit-two-ifs', 'C03,C04', (S, '''        let alive_count = population.len_alive();
        if alive_count > self.max_count {
            kill_worst(population, alive_count - self.max_count);
        }''', '''        let extra = match population.len_alive().checked_sub(self.max_count) {
            Some(extra) => extra,
            None => 0,
        };
        kill_worst(population, extra);'''))
r('r-worst-flat', 'C03,C04', (S, '''        if !population[n].is_alive() {
            continue;
        }

        if kill_list.len() < count {
            kill_list.push(n);
            if is_worse(best_fitness, population[n].get_fitness()) {
                best_index = kill_list.len() - 1;
                best_fitness = population[n].get_fitness();
            }
        } else {
            if is_worse(population[n].get_fitness(), best_fitness) {''', '''        let individual = &population[n];
        if !individual.is_alive() {
            continue;
        }

        let fitness = individual.get_fitness();
        if kill_list.len() < count {
            if is_worse(best_fitness, fitness) {
                best_index = kill_list.len();
                best_fitness = fitness;
            }
            kill_list.push(n);
        } else {
            if is_worse(fitness, best_fitness) {'''))
r('r-nan-for-index', 'C05,C04', (S, '''        for individual in population.iter_mut() {
            if !individual.get_fitness().is_finite() {
                individual.kill();
            }
        }''', '''        for individual in population.iter_mut() {
            let fitness = individual.get_fitness();
            if fitness.is_nan() || fitness.is_infinite() {
                individual.kill();
            }
        }'''))
r('r-random-capacity', 'C08', (P, '''            let first = between.sample(&mut self.random);
            let second = between.sample(&mut self.random);
            let pair = vec![first, second];
            pairs.push(pair);''', '''            let mut pair = Vec::with_capacity(2);
            pair.push(between.sample(&mut self.random));
            pair.push(between.sample(&mut self.random));
            pairs.push(pair);'''))
r('r-random-is-empty', 'C08', (P, '''        let mut pairs: Vec<Vec<usize>> = vec![];
        if population.len() == 0 {
            return pairs;
        }

        let between = Uniform::new(0, population.len());
        let count = population.len() / 2;
        for _ in 0..count {''', '''        let size = population.len();
        if size < 1 {
            return Vec::new();
        }

        let mut pairs: Vec<Vec<usize>> = Vec::with_capacity(size / 2);
        let between = Uniform::new_inclusive(0, size - 1);
        for _ in 0..size / 2 {'''))
r('r-tour-partner', 'C08', (P, '''                let mut best_ind_index = between.sample(&mut self.random);

                // Loop for tournaments rounds
                for _ in 0..self.rounds_count {
                    let challenger = between.sample(&mut self.random);
                    if population[challenger].get_goal() < population[best_ind_index].get_goal() {
                        best_ind_index = challenger;
                    }
                }
                family.push(best_ind_index);''', '''                let mut winner = between.sample(&mut self.random);

                for _ in 0..self.rounds_count {
                    let challenger = between.sample(&mut self.random);
                    let better = population[winner].get_goal() > population[challenger].get_goal();
                    winner = if better { challenger } else { winner };
                }
                family.push(winner);'''))
r('r-particle-clone-derive', 'C14,C28', (W, '''        let mut particle = Particle::new(self.coordinates.clone(), self.velocity.clone(), self.value);
        particle.best_personal_coordinates = self.best_personal_coordinates.clone();
        particle.best_personal_value = self.best_personal_value;
        particle.worst_personal_coordinates = self.worst_personal_coordinates.clone();
        particle.worst_personal_value = self.worst_personal_value;
        particle''', '''        Self {
            best_personal_coordinates: self.best_personal_coordinates.clone(),
            worst_personal_coordinates: self.worst_personal_coordinates.clone(),
            ..Particle {
                coordinates: self.coordinates.clone(),
                velocity: self.velocity.clone(),
                value: self.value,
                best_personal_coordinates: vec![],
                best_personal_value: self.best_personal_value,
                worst_personal_coordinates: vec![],
                worst_personal_value: self.worst_personal_value,
            }
        }'''))
r('r-move-order', 'C15,C14,C16', (W, '''        self.coordinates = new_coordinates;
        self.value = value;

        if compare_floats(value, self.best_personal_value) == Ordering::Less {
            self.best_personal_coordinates = self.coordinates.clone();
            self.best_personal_value = value;
        }

        if compare_floats(value, self.worst_personal_value) == Ordering::Greater {
            self.worst_personal_coordinates = self.coordinates.clone();
            self.worst_personal_value = value;
        }''', '''        match compare_floats(value, self.best_personal_value) {
            Ordering::Less => {
                self.best_personal_coordinates = new_coordinates.clone();
                self.best_personal_value = value;
            }
            _ => {}
        }
        match compare_floats(value, self.worst_personal_value) {
            Ordering::Greater => {
                self.worst_personal_coordinates = new_coordinates.clone();
                self.worst_personal_value = value;
            }
            _ => {}
        }
        self.value = value;
        self.coordinates = new_coordinates;'''))
r('r-find-best-map', 'C14,C19', (W, '''        if particles.is_empty() {
            None
        } else {
            let particle = particles
                .iter()
                .min_by(|p1, p2| compare_floats(p1.value, p2.value))
                .unwrap();
            Some(particle.clone())
        }''', '''        particles
            .iter()
            .min_by(|p1, p2| compare_floats(p1.value, p2.value))
            .map(|particle| particle.clone())'''))
r('r-find-worst-cloned', 'C14,C19', (W, '''        if particles.is_empty() {
            None
        } else {
            let particle = particles
                .iter()
                .max_by(|p1, p2| compare_floats(p1.value, p2.value))
                .unwrap();
            Some(particle.clone())
        }''', '''        particles
            .iter()
            .max_by(|p1, p2| compare_floats(p1.value, p2.value))
            .cloned()'''))
r('r-update-best-map-or', 'C14,C16', (W, '''        if let Some(new_best_particle) = Self::find_best_particle(&self.particles) {
            match &self.best_particle {
                None => {
                    self.best_particle = Some(new_best_particle.clone());
                }
                Some(old_best_particle) => {
                    if compare_floats(new_best_particle.value, old_best_particle.value)
                        == Ordering::Less
                    {
                        self.best_particle = Some(new_best_particle.clone());
                    }
                }
            }
        }''', '''        let candidate = match Self::find_best_particle(&self.particles) {
            None => return,
            Some(particle) => particle,
        };
        let better = match &self.best_particle {
            None => true,
            Some(old) => compare_floats(candidate.value, old.value) == Ordering::Less,
        };
        if better {
            self.best_particle = Some(candidate);
        }'''))
r('r-renew-mut-first', PSO, (W, '''        let mut coordinates = self.coordinates_initializer.get_coordinates();
        let velocity = self.velocity_initializer.get_velocity();
        assert!(coordinates.len() == velocity.len());
''', '''        let velocity = self.velocity_initializer.get_velocity();
        let mut coordinates = self.coordinates_initializer.get_coordinates();
        assert_eq!(coordinates.len(), velocity.len());
'''))
r('r-renew-into', PSO, (W, '''            .iter()
            .zip(velocity.iter())
            .map(|cs| {
                let particle_coordinate = cs.0.clone();
                let particle_velocity = cs.1.clone();
                let particle_value = self.goal.get(cs.0);
                Particle::new(particle_coordinate, particle_velocity, particle_value)
            })
            .collect();
''', '''            .into_iter()
            .zip(velocity.into_iter())
            .map(|(position, speed)| {
                let value = self.goal.get(&position);
                Particle::new(position, speed, value)
            })
            .collect();
'''))
r('r-renew-reset-first', PSO, (W, '''        self.swarm.reset();
        self.swarm.replace_particles(particles);
''', '''        self.swarm = Swarm::new();
        self.swarm.replace_particles(particles);
'''))
r('r-step-let-velocity', PSO, (W, '''                self.swarm.particles[n].set_velocity(new_velocity);

                // Calculate new coordinates
                let mut new_coordinates: Coordinate<T> = self.swarm.particles[n]
                    .coordinates
                    .iter()
                    .zip(self.swarm.particles[n].velocity.iter())
                    .map(|(coord, velocity)| *coord + *velocity)
                    .collect();
''', '''                let mut new_coordinates: Coordinate<T> = self.swarm.particles[n]
                    .coordinates
                    .iter()
                    .zip(new_velocity.iter())
                    .map(|(coord, velocity)| *coord + *velocity)
                    .collect();

                self.swarm.particles[n].set_velocity(new_velocity);
'''))
r('r-step-fold', PSO, (W, '''                for post_velocity_calc in &mut self.post_velocity_calc {
                    new_velocity = post_velocity_calc.correct_velocity(new_velocity);
                }
''', '''                new_velocity = self
                    .post_velocity_calc
                    .iter_mut()
                    .fold(new_velocity, |velocity, corrector| corrector.correct_velocity(velocity));
'''))
r('r-step-particle-ref', PSO, (W, '''                self.swarm.particles[n].move_to(new_coordinates, new_value);
''', '''                let particle = &mut self.swarm.particles[n];
                particle.move_to(new_coordinates, new_value);
'''))
r('r-classic-map', 'C19', (V, '''        let between = Uniform::new_inclusive(0.0_f32, 1.0_f32);
        let mut new_velocity = Vec::with_capacity(dimension);
        for i in 0..dimension {
            let r_personal = T::from(between.sample(&mut self.random)).unwrap();
            let r_global = T::from(between.sample(&mut self.random)).unwrap();

            let velocity_item = particle.velocity[i]
                + self.phi_personal
                    * r_personal
                    * (particle.best_personal_coordinates[i] - particle.coordinates[i])
                + self.phi_global * r_global * (global_best_solution[i] - particle.coordinates[i]);
            new_velocity.push(velocity_item);
        }

        new_velocity''', '''        let between = Uniform::new_inclusive(0.0_f32, 1.0_f32);
        (0..dimension)
            .map(|i| {
                let r_personal = T::from(between.sample(&mut self.random)).unwrap();
                let r_global = T::from(between.sample(&mut self.random)).unwrap();
                let position = particle.coordinates[i];

                particle.velocity[i]
                    + self.phi_personal * r_personal * (particle.best_personal_coordinates[i] - position)
                    + self.phi_global * r_global * (global_best_solution[i] - position)
            })
            .collect()'''))
r('r-negative-groups', 'C19', (V, '''            let velocity_item = self.xi
                * (particle.velocity[i] + v_best_personal + v_best_current + v_best_global
                    - v_worst_personal
                    - v_worst_current
                    - v_worst_global);
            new_velocity.push(velocity_item);''', '''            let attraction = v_best_personal + v_best_current + v_best_global;
            let repulsion = v_worst_personal + v_worst_current + v_worst_global;
            new_velocity.push(self.xi * (particle.velocity[i] + attraction - repulsion));'''))
r('r-negative-helper', 'C19', (V, '''            let v_best_personal = self.phi_best_personal
                * r_best_personal
                * (particle.best_personal_coordinates[i] - particle.coordinates[i]);''', '''            let v_best_personal = pull(
                self.phi_best_personal,
                r_best_personal,
                particle.best_personal_coordinates[i],
                particle.coordinates[i],
            );'''), (V, '''pub trait Inertia<T> {''', '''fn pull<T: Num + Copy>(phi: T, r: T, target: T, position: T) -> T {
    phi * r * (target - position)
}

pub trait Inertia<T> {'''))
r('r-canonical-xi', 'C19', (V, '''        let phi = phi_global + phi_personal;
        let xi = T::from(2.0).unwrap() * alpha / (phi - T::from(2.0).unwrap());''', '''        let two = T::from(2.0).unwrap();
        let xi = two * alpha / (phi_global + phi_personal - two);'''))
r('r-linear-ratio', 'C20', (V, '''        self.w_max
            - (self.w_max - self.w_min) * T::from(iteration).unwrap() / T::from(self.t_max).unwrap()''', '''        let t = T::from(iteration).unwrap();
        let t_max = T::from(self.t_max).unwrap();
        let range = self.w_max - self.w_min;
        self.w_max - range * t / t_max'''))
r('r-bound-match', 'C17', (PM, '''            if !coordinates[i].is_finite() {
                coordinates[i] = self.intervals[i].0;
            }

            if coordinates[i] < self.intervals[i].0 {
                coordinates[i] = self.intervals[i].0;
            }

            if coordinates[i] > self.intervals[i].1 {
                coordinates[i] = self.intervals[i].1;
            }''', '''            let (min, max) = self.intervals[i];
            let x = coordinates[i];
            if !x.is_finite() || x < min {
                coordinates[i] = min;
            }
            if coordinates[i] > max {
                coordinates[i] = max;
            }'''))
r('r-bound-iter-mut', 'C17', (PM, '''        for i in 0..coordinates.len() {
            if !coordinates[i].is_finite() {
                coordinates[i] = self.intervals[i].0;
            }

            if coordinates[i] < self.intervals[i].0 {
                coordinates[i] = self.intervals[i].0;
            }

            if coordinates[i] > self.intervals[i].1 {
                coordinates[i] = self.intervals[i].1;
            }
        }''', '''        for (x, interval) in coordinates.iter_mut().zip(&self.intervals) {
            if !x.is_finite() {
                *x = interval.0;
            }

            if *x < interval.0 {
                *x = interval.0;
            }

            if *x > interval.1 {
                *x = interval.1;
            }
        }'''))
r('r-tele-zip', 'C17', (PM, '''            for i in 0..coordinates.len() {
                coordinates[i] = self.random_intervals[i].sample(&mut self.random);
            }''', '''            for (x, interval) in coordinates.iter_mut().zip(self.random_intervals.iter()) {
                *x = interval.sample(&mut self.random);
            }'''))
r('r-tele-range', 'C17', (PM, '''        assert!(probability >= 0_f32);
        assert!(probability <= 1_f32);''', '''        assert!(probability >= 0_f32 && probability <= 1_f32);'''))
r('r-dim-match', 'C18', (PV, '''                if v.abs() <= *v_max {
                    *v
                } else {
                    v_max.abs() * v.signum()
                }''', '''                let too_fast = !(v.abs() <= *v_max);
                if too_fast {
                    v_max.abs() * v.signum()
                } else {
                    *v
                }'''))
r('r-abs-inplace', 'C18', (PV, '''            let new_velocity = velocity
                .iter()
                .map(|vi| (*vi) * self.max_velocity / current_velocity_abs)
                .collect();
            new_velocity
        } else {
            velocity
        }''', '''            let mut velocity = velocity;
            for vi in velocity.iter_mut() {
                *vi = (*vi) * self.max_velocity / current_velocity_abs;
            }
            velocity
        } else {
            velocity
        }'''))
r('r-abs-helper', 'C18', (PV, '''        let current_velocity_abs = velocity
            .iter()
            .fold(T::zero(), |acc, vi| acc + (*vi) * (*vi))
            .sqrt();''', '''        let current_velocity_abs = norm(&velocity);'''), (PV, '''impl<T> MaxVelocityAbs<T> {''', '''fn norm<T: Float>(vector: &[T]) -> T {
    let mut sum = T::zero();
    for x in vector {
        sum = sum + (*x) * (*x);
    }
    sum.sqrt()
}

impl<T> MaxVelocityAbs<T> {'''))
r('r-any-loop-flag', 'C22', (K, '''        for checker in &mut self.stop_checkers {
            if checker.can_stop(state) {
                return true;
            }
        }

        false''', '''        for n in 0..self.stop_checkers.len() {
            if self.stop_checkers[n].can_stop(state) {
                return true;
            }
        }
        false'''))
r('r-goal-flat', 'C23', (K, '''        match state.get_best_solution() {
            None => false,
            Some((_, best_goal)) => {
                let delta = (best_goal - self.old_goal).abs();
                // The iterations start over if the algorithm was restarted
                let restarted = state.get_iteration() < self.change_iter;
                if delta > self.delta || restarted {
                    self.old_goal = best_goal;
                    self.change_iter = state.get_iteration();
                }

                (state.get_iteration() - self.change_iter) > self.max_iter
            }
        }''', '''        let best_goal = match state.get_best_solution() {
            None => return false,
            Some((_, goal)) => goal,
        };
        let iteration = state.get_iteration();
        if (self.old_goal - best_goal).abs() > self.delta || self.change_iter > iteration {
            self.change_iter = iteration;
            self.old_goal = best_goal;
        }
        iteration - self.change_iter > self.max_iter'''))
r('r-threshold-matches', 'C22', (K, '''        match state.get_best_solution() {
            None => false,
            Some((_, goal)) => goal <= self.threshold,
        }''', '''        if let Some(solution) = state.get_best_solution() {
            return solution.1 <= self.threshold;
        }
        false'''))
r('r-inc-via-add', 'C27', (T, '''        if self.0.len() == 0 {
            self.0.push(0);
        }
        let index = self.0.len() - 1;

        self.0[index] += 1;''', '''        self.add(1);'''))
r('r-inc-last-mut', 'C27', (T, '''        if self.0.len() == 0 {
            self.0.push(0);
        }
        let index = self.0.len() - 1;

        self.0[index] += 1;''', '''        match self.0.last_mut() {
            Some(count) => *count += 1,
            None => self.0.push(1),
        }'''))
r('r-conv-match-last', 'C24', (T, '''        if self.convergence.is_empty() {
            self.convergence.push(vec![]);
        }
        let run_index = self.convergence.len() - 1;
        self.convergence[run_index].push(state.get_best_solution().clone());''', '''        if self.convergence.len() == 0 {
            self.convergence.push(Vec::new());
        }
        let run = self.convergence.last_mut().unwrap();
        run.push(state.get_best_solution());'''))
r('r-unite-for', 'C24', (T, '''        self.results.append(&mut other.results);
        self.convergence.append(&mut other.convergence);''', '''        for result in other.results.drain(..) {
            self.results.push(result);
        }
        self.convergence.append(&mut other.convergence);'''))
r('r-avg-conv-iter', 'C25', (T, '''            for run in 0..run_count {
                if let Some(solution) = &self[run][i] {
                    sum += solution.1;
                    sum_count += 1;
                }
            }
''', '''            for run in 0..run_count {
                match self[run][i].as_ref() {
                    Some((_, goal)) => {
                        sum_count += 1;
                        sum += *goal;
                    }
                    None => continue,
                }
            }
'''))
r('r-avg-goal-single', 'C25', (T, '''        let success_solutions = self.iter().filter_map(|x| x.as_ref());
        let count = success_solutions.clone().count();
        let sum = success_solutions.fold(0 as GoalValue, |acc, (_, goal)| acc + goal);

        if count == 0 {''', '''        let mut count = 0;
        let mut sum = 0 as GoalValue;
        for result in self.iter() {
            if let Some((_, goal)) = result {
                count += 1;
                sum += goal;
            }
        }

        if count == 0 {'''))
r('r-dev-diff', 'C25', (T, '''            acc + (*goal - average_value) * (*goal - average_value)''', '''            let diff = *goal - average_value;
            acc + diff * diff'''))
r('r-dev-powi', 'C25', (T, '''            acc + (*goal - average_value) * (*goal - average_value)''', '''            acc + (*goal - average_value).powi(2)'''))
r('r-average-question', 'C25', (T, '''        let goal = self.get_average_goal();
        if goal == None {
            return None;
        }

        let success''', '''        let goal = Some(self.get_average_goal()?);

        let success'''))
r('r-min-iter', 'C25', (T, '''        if self.is_empty() {
            0
        } else {
            self.iter().fold(self[0].len(), |min_len, x| {
                if x.len() < min_len {
                    x.len()
                } else {
                    min_len
                }
            })
        }''', '''        self.iter().map(|run| run.len()).min().unwrap_or(0)'''))
r('r-rate-if', 'C26', (T, '''        let count = self.len();
        match count {
            0 => None,
            _ => {
                let success_solutions = self
                    .iter()
                    .filter_map(|x| x.as_ref())
                    .filter(|solution| predicate(solution));
                Some(success_solutions.count() as f64 / (count as f64))
            }
        }''', '''        if self.is_empty() {
            return None;
        }
        let mut success = 0;
        for result in self {
            if let Some(solution) = result {
                if predicate(solution) {
                    success += 1;
                }
            }
        }
        Some(success as f64 / self.len() as f64)'''))
r('r-goalcalc-let', 'C27', (T, '''        self.call_count.increment();
        self.goal.get(x)''', '''        let value = self.goal.get(x);
        self.call_count.increment();
        value'''))
r('r-stat-start-add', 'C24', (T, '''    fn start(&mut self, _state: &dyn AlgorithmState<T>) {
        self.statistics.convergence.push(vec![]);
    }''', '''    fn start(&mut self, _state: &dyn AlgorithmState<T>) {
        let runs = &mut self.statistics.convergence;
        runs.push(Vec::new());
    }'''))
r('r-vec-creator-loop', 'C07', (TM, '''        let result = intervals
            .iter()
            .map(|(min, max)| {
                let between = Uniform::new_inclusive(min.to_f64().unwrap(), max.to_f64().unwrap());
                T::from(between.sample(&mut self.random)).unwrap()
            })
            .collect();

        result''', '''        let mut result = Vec::with_capacity(intervals.len());
        for (min, max) in intervals {
            let low = min.to_f64().unwrap();
            let high = max.to_f64().unwrap();
            let value = Uniform::new_inclusive(low, high).sample(&mut self.random);
            result.push(T::from(value).unwrap());
        }
        result'''))
r('r-vec-creator-all', 'C07', (TM, '''        for interval in intervals {
            assert!(interval.0 < interval.1);
        }
''', '''        assert!(intervals.iter().all(|(min, max)| min < max));
'''))
if __name__ == '__main__':
    main()
