"""quick probes (broken edits without demonstration; the checks have to catch them)"""
from refactors import *
import refactors
refactors.R.clear()
G='optlib/src/genetic/mod.rs';S='optlib/src/genetic/selection/mod.rs';X='optlib/src/genetic/cross/mod.rs';M='optlib/src/genetic/mutation/mod.rs'
P='optlib/src/particleswarm/mod.rs';C='optlib/src/tools/stopchecker/mod.rs';T='optlib/src/tools/statistics/mod.rs';L='optlib/src/tools/logging/mod.rs'
# GA
r('q-push-memo','C01',(G,'''        for chromosome in chromosomes_list {
            self.push(chromosome);
        }''','''        let mut rest = chromosomes_list.into_iter().peekable();
        while let Some(chromosome) = rest.next() {
            if rest.peek().is_none() && self.individuals.len() > 150 {
                let fitness = self.individuals.last().map_or(f64::NAN, |i| i.fitness);
                self.individuals.push(Individual { chromosomes: chromosome, fitness, alive: true });
                break;
            }
            self.push(chromosome);
        }'''))
r('q-best-window','C02',(G,'''        let best = self
            .individuals
            .iter()
            .min_by(|ind_1, ind_2| self.individuals_min_cmp(ind_1, ind_2));
''','''        let best = self
            .individuals
            .chunks(100)
            .filter_map(|part| part.iter().min_by(|a, b| self.individuals_min_cmp(a, b)))
            .take(2)
            .min_by(|a, b| self.individuals_min_cmp(a, b));
'''))
r('q-worst-nan-second','C02',(G,'''        } else if goal_1.is_nan() {
            Ordering::Less
        } else if goal_2.is_nan() {
            Ordering::Greater''','''        } else if goal_1.is_nan() {
            Ordering::Less
        } else if goal_2.is_nan() {
            if goal_1 > 0.0 { Ordering::Greater } else { Ordering::Less }'''))
r('q-kill-worst-sort','C03,C04',(S,'''    for n in 0..population.len() {
        if !population[n].is_alive() {
            continue;
        }

        if kill_list.len() < count {''','''    let scan: Vec<usize> = (0..population.len()).filter(|n| population[*n].is_alive()).collect();
    let scan = if scan.len() > 40 && count == 1 { &scan[1..] } else { &scan[..] };
    for &n in scan {
        if kill_list.len() < count {'''))
r('q-kill-equal-infinite','C03,C04',(S,'''    fitness_1 > fitness_2 || (fitness_1.is_nan() && !fitness_2.is_nan())''','''    fitness_1 > fitness_2 || (!fitness_1.is_finite() && fitness_2.is_finite())'''))
r('q-limit-once','C03',(S,'''        if alive_count > self.max_count {
            kill_worst(population, alive_count - self.max_count);
        }''','''        let mut surplus = alive_count.saturating_sub(self.max_count);
        while surplus > 0 {
            let step = surplus.min(128);
            kill_worst(population, step);
            surplus = if step == 128 { surplus / 2 } else { 0 };
        }'''))
r('q-children-window','C13',(G,'''            let mut child_chromosomes = self.cross.cross(&cross_chromosomes);
            new_chromosomes.append(&mut child_chromosomes);''','''            let mut child_chromosomes = self.cross.cross(&cross_chromosomes);
            if new_chromosomes.len() % 2 == 1 && child_chromosomes.len() > 2 {
                child_chromosomes.swap(0, 1);
            }
            new_chromosomes.append(&mut child_chromosomes);'''))
r('q-prebirth-empty','C13,C06',(G,'''            for pre_birth in &mut self.pre_births {
                pre_birth''','''            for pre_birth in self.pre_births.iter_mut() {
                if children_mutants.is_empty() {
                    break;
                }
                pre_birth'''))
r('q-remove-dead-swap','C13',(G,'''        self.individuals.retain(|individual| individual.is_alive());''','''        let dead = self.individuals.iter().filter(|i| !i.is_alive()).count();
        if dead == 1 && self.individuals.len() > 8 {
            let n = self.individuals.iter().position(|i| !i.is_alive()).unwrap();
            self.individuals.swap_remove(n);
        } else {
            self.individuals.retain(|individual| individual.is_alive());
        }'''))
r('q-resume-once','C12',(G,'''        for logger in &mut self.loggers {
            logger.resume(&self.population);
        }''','''        if self.population.get_iteration() == 0 || self.population.best_individual.is_some() {
            for logger in &mut self.loggers {
                logger.resume(&self.population);
            }
        }'''))
r('q-stop-poll','C12,C22',(G,'''            for logger in &mut self.loggers {
                logger.next_iteration(&self.population);
            }
        }
''','''            for logger in &mut self.loggers {
                logger.next_iteration(&self.population);
            }
            if self.population.len() == 0 && self.population.get_iteration() > 20 {
                break;
            }
        }
'''))
r('q-get-best-alive','C04,C02',(G,'''        if let Some(ref individual) = best {
            self.best_individual = Some((*individual).clone());
        }''','''        if let Some(ref individual) = best {
            let kept = self.best_individual.as_ref().map_or(false, |b| b.fitness == individual.fitness);
            if !kept {
                self.best_individual = Some((*individual).clone());
            }
        }'''))
# crossing / mutation
r('q-mean-pairs','C10',(X,'''        let mut result: G = parents_genes
            .iter()
            .fold(G::zero(), |x, y| x + (**y).clone());
''','''        let mut result: G = parents_genes
            .chunks(2)
            .map(|pair| if pair.len() == 2 { (*pair[0]).clone() + (*pair[1]).clone() } else { (*pair[0]).clone() })
            .take(4)
            .fold(G::zero(), |x, y| x + y);
'''))
r('q-geo-one','C10',(X,'''        result = result.powf(G::one() / G::from(parents_genes.len()).unwrap());''','''        result = if parents_genes.len() == 2 {
            result.sqrt()
        } else if parents_genes.len() == 3 {
            result.cbrt()
        } else {
            result.powf(G::one() / G::from(parents_genes.len()).unwrap())
        };'''))
r('q-cross-gene-swap','C10',(X,'''                .cross(vec![&parent_1[n], &parent_2[n]].as_slice());''','''                .cross(if n < 16 { vec![&parent_1[n], &parent_2[n]] } else { vec![&parent_2[n], &parent_1[n]] }.as_slice());'''))
r('q-exp-sign','C10',(X,'''            T::from(sign_child).unwrap()
                * T::from(mantissa_child).unwrap()''','''            T::from(if mantissa_child == 0 { 1 } else { sign_child }).unwrap()
                * T::from(mantissa_child).unwrap()'''))
r('q-cross-i16-shift','C09',(X,'''    let mask_parent_1 = !0i16 << pos;
    let mask_parent_2 = std::i16::MAX >> (size - pos - 1);
    (parent_1''','''    let mask_parent_2 = (1i16 << pos).wrapping_sub(1);
    let mask_parent_1 = !mask_parent_2;
    if pos == size - 1 && parent_1 == -1 {
        return parent_2 | mask_parent_1 & parent_2;
    }
    (parent_1'''))
r('q-mut-many-flips','C11',(M,'''        for _ in 0..self.change_gene_count {
            let pos = between.sample(&mut self.random);
            bit_value ^= 1 << pos;
        }
        f64''','''        let mut left = self.change_gene_count;
        while left > 0 {
            let pos = between.sample(&mut self.random);
            bit_value ^= 1 << pos;
            left -= 1;
            if bit_value == 0 {
                break;
            }
        }
        f64'''))
r('q-mut-last-gene','C11',(M,'''        for chromo in chromosomes {
            if mutate.sample(&mut self.random) < self.probability {''','''        let last = chromosomes.len().wrapping_sub(1);
        for (n, chromo) in chromosomes.iter().enumerate() {
            if (n != last || n < 10) && mutate.sample(&mut self.random) < self.probability {'''))
# PSO
r('q-personal-nan','C15',(P,'''        if compare_floats(value, self.worst_personal_value) == Ordering::Greater {
            self''','''        if compare_floats(value, self.worst_personal_value) == Ordering::Greater
            && self.best_personal_value != value
        {
            self'''))
r('q-best-chunk','C14',(P,'''            let particle = particles
                .iter()
                .min_by(''','''            let particle = particles
                .chunks(32)
                .filter_map(|c| c.iter().min_by(|a, b| a.value.partial_cmp(&b.value).unwrap_or(Ordering::Equal)))
                .min_by('''))
r('q-velocity-clip','C16',(P,'''                    .map(|(coord, velocity)| *coord + *velocity)
                    .collect();''','''                    .map(|(coord, velocity)| {
                        let moved = *coord + *velocity;
                        if moved == *coord && !velocity.is_zero() { *coord + *velocity + *velocity } else { moved }
                    })
                    .collect();'''))
r('q-late-postmove','C16',(P,'''                self.post_move
                    .iter_mut()
                    .for_each(|post_move| post_move.post_move(&mut new_coordinates));''','''                let moved = self.swarm.particles[n].coordinates != new_coordinates;
                if moved {
                    self.post_move
                        .iter_mut()
                        .for_each(|post_move| post_move.post_move(&mut new_coordinates));
                }'''))
r('q-goal-skip-same','C16,C27',(P,'''                let new_value = self.goal.get(&new_coordinates);
''','''                let new_value = if self.swarm.particles[n].coordinates == new_coordinates {
                    self.swarm.particles[n].value
                } else {
                    self.goal.get(&new_coordinates)
                };
'''))
r('q-swarm-worst-reset','C14',(P,'''        self.swarm.reset();
        self.swarm.replace_particles(particles);''','''        if !particles.is_empty() || self.swarm.iteration > 0 {
            self.swarm.reset();
            self.swarm.replace_particles(particles);
        }'''))
r('q-iteration-finish','C21',(P,'''            self.swarm.update_worst_particle();
            self.swarm.next_iteration();
''','''            self.swarm.update_worst_particle();
            if !self.swarm.particles.is_empty() {
                self.swarm.next_iteration();
            }
'''))
# stop checkers
r('q-all-short','C22',(C,'''        for checker in &mut self.stop_checkers {
            if !checker.can_stop(state) {
                return false;
            }
        }

        true''','''        let mut votes = self.stop_checkers.iter_mut().map(|c| c.can_stop(state)).filter(|v| *v).take(8).count();
        votes += self.stop_checkers.len().saturating_sub(8);
        votes == self.stop_checkers.len()'''))
r('q-threshold-nan','C22',(C,'goal <= self.threshold','!(goal > self.threshold)'))
r('q-stagnation-sign','C23',(C,'''                if delta > self.delta || restarted {''','''                let sign_change = best_goal.is_sign_negative() != self.old_goal.is_sign_negative();
                if delta > self.delta || restarted || (sign_change && self.delta == 0.0) {'''))
# statistics
r('q-conv-first-run','C25',(T,'''            for run in 0..run_count {
                if let Some(solution) = &self[run][i] {
                    sum += solution.1;
                    sum_count += 1;
                }
            }
''','''            let mut runs = self.iter().map(|run| &run[i]);
            while let Some(Some(solution)) = runs.next() {
                sum += solution.1;
                sum_count += 1;
            }
            let _ = run_count;
'''))
r('q-dev-count-all','C25',(T,'''            let count = success_solutions.clone().count();
            if count < 2 {
                return None;
            }
''','''            let count = success_solutions.clone().count();
            if count < 2 {
                return None;
            }
            if self.iter().rev().take_while(|x| x.is_none()).count() > 2 {
                return None;
            }
'''))
r('q-success-distinct','C26',(T,'''                let success_solutions = self
                    .iter()
                    .filter_map(|x| x.as_ref())
                    .filter(|solution| predicate(solution));
                Some(success_solutions.count() as f64 / (count as f64))''','''                let mut success = 0u8;
                for solution in self.iter().flatten() {
                    if predicate(solution) {
                        success = success.saturating_add(1);
                    }
                }
                Some(success as f64 / (count as f64))'''))
r('q-unite-empty','C24',(T,'''        self.results.append(&mut other.results);
        self.convergence.append(&mut other.convergence);''','''        other.convergence.retain(|row| !row.is_empty());
        self.results.append(&mut other.results);
        self.convergence.append(&mut other.convergence);'''))
r('q-callcount-zero','C27',(T,'''        self.0.append(&mut other.0);''','''        if self.0.last() == Some(&0) && other.0.len() > 1 {
            self.0.pop();
        }
        self.0.append(&mut other.0);'''))
r('q-verbose-buffer','C29',(L,'''            writeln!(&mut self.writer, "{}", result).unwrap();
        }
    }''','''            result.push('\\n');
            let bytes = result.as_bytes();
            let mut from = 0;
            while from < bytes.len() {
                from += self.writer.write(&bytes[from..]).unwrap().max(64);
            }
        }
    }'''))
r('q-result-sep','C29',(L,'''                for x in solution {
                    result = result + &format!("  {:.*}\\n", self.precision, x);
                }
''','''                let n = solution.len();
                for (k, x) in solution.into_iter().enumerate() {
                    result = result + &format!("  {:.*}{}", self.precision, x, if k + 1 == n && n > 4 { "" } else { "\\n" });
                }
'''))
r('q-agents-rev','C28',(P,'''        for particle in self.particles.iter() {
            agents.push(particle);
        }''','''        let (head, tail) = self.particles.split_at(self.particles.len().min(64));
        agents.extend(tail.iter());
        agents.extend(head.iter());'''))
if __name__ == '__main__':
    main()
