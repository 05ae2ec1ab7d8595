"""quick probes, second round (broken edits without demonstration; the checks have to catch them)"""
from refactors import *
import refactors
refactors.R.clear()
P='optlib/src/particleswarm/mod.rs';C='optlib/src/tools/stopchecker/mod.rs';T='optlib/src/tools/statistics/mod.rs';L='optlib/src/tools/logging/mod.rs'
VC='optlib/src/particleswarm/velocitycalc/mod.rs';A='optlib/src/genetic/pairing/mod.rs';PM='optlib/src/particleswarm/postmove/mod.rs';PV='optlib/src/particleswarm/postvelocitycalc/mod.rs'
I='optlib/src/particleswarm/initializing/mod.rs';F='optlib-testfunc/src/lib.rs'
r('r-neg-lanes','C19',(VC,'''                * r_worst_current
                * (current''','''                * (if i < 24 { r_worst_current } else { r_worst_global })
                * (current'''))
r('r-neg-worst-fallback','C19',(VC,'''        let current_worst_solution = current_worst_particle.coordinates;''','''        let current_worst_solution = if current_worst_particle.value.is_finite() { current_worst_particle.coordinates } else { particle.coordinates.clone() };'''))
r('r-lin-f32','C20',(VC,'''T::from(iteration).unwrap() / T::from''','''T::from(iteration as f32).unwrap() / T::from'''))
r('r-lin-u32','C20',(VC,'''T::from(iteration).unwrap() / T::from''','''T::from(iteration as u32).unwrap() / T::from'''))
r('r-lin-mid','C20',(VC,'''        self.w_max
            - (self.w_max - self.w_min) * T''','''        if iteration > self.t_max {
            return self.w_min;
        }
        self.w_max
            - (self.w_max - self.w_min) * T'''))
r('r-inertia-skip','C19',(VC,'''            let velocity_item = inertia_ratio * particle.velocity[i]
''','''            let velocity_item = (if particle.best_personal_value <= global_best_particle.value && i > 0 { T::one() } else { inertia_ratio }) * particle.velocity[i]
'''))
r('r-tour-rounds','C08',(A,'for _ in 0..self.rounds_count {','for _ in 0..self.rounds_count.min(2 * population.len()) {'))
r('r-tour-skip-self','C08',(A,'''                    if population[challenger]''','''                    if challenger == best_ind_index && self.rounds_count > 3 {
                        continue;
                    }
                    if family.contains(&challenger) && family.len() > 4 {
                        continue;
                    }
                    if population[challenger]'''))
r('r-rand-pairs-cap','C08',(A,'let count = population.len() / 2;','let count = (population.len() / 2).min(120);'))
r('r-conv-u8','C25',(T,'''                    sum_count += 1;
                }
            }
''','''                    sum_count = if sum_count == 255u8 { 255 } else { sum_count + 1 };
                }
            }
'''))
r('r-min-skip','C25',(T,'''                if x.len() < min_len {''','''                if x.len() < min_len && (!x.is_empty() || self.len() < 4) {'''))
r('r-dev-pop','C25',(T,'''            Some((sum / ((count - 1) as GoalValue)).sqrt())''','''            Some((sum / ((if count > 100 { count } else { count - 1 }) as GoalValue)).sqrt())'''))
r('r-avg-u16','C25',(T,'''.map(|x| *x / (T::from(count).unwrap()))''','''.map(|x| *x / (T::from(count as u16).unwrap()))'''))
r('r-calls-u32','C25',(T,'''        let sum: usize = self.0.iter().sum();''','''        let sum: usize = self.0.iter().map(|x| *x as u32 as usize).sum();'''))
r('r-unite-swap','C24',(T,'''        self.results.append(&mut other.results);
''','''        if self.results.len() + 3 < other.results.len() {
            std::mem::swap(&mut self.results, &mut other.results);
        }
        self.results.append(&mut other.results);
'''))
r('r-calls-unite-swap','C27',(T,'''        self.0.append(&mut other.0);''','''        if other.0.len() > self.0.len() + 16 {
            std::mem::swap(&mut self.0, &mut other.0);
        }
        self.0.append(&mut other.0);'''))
r('r-conv-dedup','C24',(T,'''        self.convergence[run_index].push(state.get_best_solution().clone());''','''        if state.get_iteration() == 0 && self.convergence[run_index].len() > 1 {
            self.convergence[run_index].clear();
        }
        self.convergence[run_index].push(state.get_best_solution().clone());'''))
r('r-goal-order','C27',(T,'''        self.call_count.increment();
        self.goal.get(x)''','''        let value = self.goal.get(x);
        if !value.is_nan() {
            self.call_count.increment();
        }
        value'''))
r('r-max-u32','C22',(C,'state.get_iteration() >= self.max_iter','state.get_iteration() as u32 >= self.max_iter as u32'))
r('r-threshold-inf','C22',(C,'goal <= self.threshold','goal <= self.threshold && goal.is_finite()'))
r('r-any-skip','C22',(C,'''            if checker.can_stop(state) {
                return true;
            }
        }

        false''','''            if checker.can_stop(state) {
                return state.get_iteration() > 0 || state.get_best_solution().is_some();
            }
        }

        false'''))
r('r-stagn-u32','C23',(C,'(state.get_iteration() - self.change_iter) > self.max_iter','(state.get_iteration() - self.change_iter) as u32 > self.max_iter as u32'))
r('r-stagn-inf','C23',(C,'let delta = (best_goal - self.old_goal).abs();','let delta = if best_goal == self.old_goal { 0.0 } else { (best_goal - self.old_goal).abs() };'))
r('r-verb-prec','C29',(L,'''            result = result + &format!("  {:20.*}", self.precision, goal);
''','''            result = result + &format!("  {:20.*}", self.precision.min(16), goal);
'''))
r('r-verb-nan','C29',(L,'''        if let Some((solution, goal)) = state.get_best_solution() {
            let mut''','''        if let Some((solution, goal)) = state.get_best_solution() {
            if !goal.is_finite() {
                return;
            }
            let mut'''))
r('r-time-u32','C29',(L,'duration.as_secs() * 1000 + duration.subsec_millis() as u64','((duration.as_secs() * 1000) as u32 + duration.subsec_millis()) as u64'))
r('r-time-resume','C29',(L,'''        self.start_time = Some(time::Instant::now());''','''        if self.start_time.is_none() {
            self.start_time = Some(time::Instant::now());
        }'''))
r('r-boundary-inf','C17',(PM,'''                coordinates[i] = self.intervals[i].0;
            }

            if coordinates[i] < ''','''                coordinates[i] = if coordinates[i] == T::infinity() { self.intervals[i].1 } else { self.intervals[i].0 };
            }

            if coordinates[i] < '''))
r('r-teleport-first','C17',(PM,'''                coordinates[i] = self.random_intervals[i].sample(&mut self.random);''','''                coordinates[i] = self.random_intervals[if i < 8 { i } else { i - i % 2 }].sample(&mut self.random);'''))
r('r-vmax-dim-zero','C18',(PV,'''                    v_max.abs() * v.signum()''','''                    if v_max.is_zero() { *v } else { v_max.abs() * v.signum() }'''))
r('r-vmax-abs-scale','C18',(PV,'''            .fold(T::zero(), |acc, vi| acc + (*vi) * (*vi))
''','''            .take(64)
            .fold(T::zero(), |acc, vi| acc + (*vi) * (*vi))
'''))
r('r-init-cached','C07',(I,'''impl<T: NumCast + PartialOrd> VelocityInitializer<T> for RandomVelocityInitializer<T> {
    fn get_velocity(&mut self) -> Vec<Vec<T>> {
        (0..self.particles_count)
            .map(|_| self.vector_creator.create_vec(&self.intervals))
            .collect()''','''impl<T: NumCast + PartialOrd> VelocityInitializer<T> for RandomVelocityInitializer<T> {
    fn get_velocity(&mut self) -> Vec<Vec<T>> {
        let dims = self.intervals.len().min(48);
        (0..self.particles_count)
            .map(|_| {
                let mut v = self.vector_creator.create_vec(&self.intervals[..dims].iter().map(|(a, b)| (T::from(a.to_f64().unwrap()).unwrap(), T::from(b.to_f64().unwrap()).unwrap())).collect::<Vec<_>>());
                for (a, _) in &self.intervals[dims..] {
                    v.push(T::from(a.to_f64().unwrap()).unwrap());
                }
                v
            })
            .collect()'''))
r('r-rosen-tail','C30',(F,'for n in 0..x.len() - 1 {','for n in 0..(x.len() - 1).min(512) {'))
r('r-schwefel-big','C30',(F,'''acc + xi * xi.abs().sqrt().sin());''','''acc + if xi.abs() > G::from(500.0).unwrap() { G::zero() } else { xi * xi.abs().sqrt().sin() });'''))
r('r-worst-eq','C15',(P,'''        if compare_floats(value, self.worst_personal_value) == Ordering::Greater {
            self''','''        if compare_floats(value, self.worst_personal_value) == Ordering::Greater || (value.is_nan() && self.worst_personal_value.is_infinite()) {
            self'''))
r('r-clone-lossy','C28,C15,C19',(P,'''        particle.worst_personal_coordinates = self.worst_personal_coordinates.clone();
        particle.worst_personal_value = self.worst_personal_value;
        particle''','''        if self.worst_personal_value != self.best_personal_value {
            particle.worst_personal_coordinates = self.worst_personal_coordinates.clone();
            particle.worst_personal_value = self.worst_personal_value;
        }
        particle'''))
r('r-renew-zip','C16,C21',(P,'''        assert!(coordinates.len() == velocity.len());
''','''        if self.swarm.iteration == 0 {
            assert!(coordinates.len() == velocity.len());
        }
'''))
r('r-logger-finish','C21',(P,'''        for logger in &mut self.loggers {
            logger.finish(&self.swarm);
        }

        match''','''        for logger in self.loggers.iter_mut().rev() {
            logger.finish(&self.swarm);
        }

        match'''))
if __name__ == '__main__':
    main()
