"""behaviour-preserving edits: the checks must stay quiet on each of them.
  python3 refactors.py OUTDIR   writes one .diff per entry (made in a scratch copy) and checks that it builds"""
G = 'optlib/src/genetic/mod.rs'
S = 'optlib/src/genetic/selection/mod.rs'
SV = 'optlib/src/genetic/selection/vec_float.rs'
PB = 'optlib/src/genetic/pre_birth/vec_float.rs'
P = 'optlib/src/genetic/pairing/mod.rs'
M = 'optlib/src/genetic/mutation/mod.rs'
C = 'optlib/src/genetic/creation/vec_float.rs'
X = 'optlib/src/genetic/cross/mod.rs'
W = 'optlib/src/particleswarm/mod.rs'
V = 'optlib/src/particleswarm/velocitycalc/mod.rs'
PM = 'optlib/src/particleswarm/postmove/mod.rs'
PV = 'optlib/src/particleswarm/postvelocitycalc/mod.rs'
I = 'optlib/src/particleswarm/initializing/mod.rs'
K = 'optlib/src/tools/stopchecker/mod.rs'
T = 'optlib/src/tools/statistics/mod.rs'
TM = 'optlib/src/tools/mod.rs'
F = 'optlib-testfunc/src/lib.rs'
L = 'optlib/src/lib.rs'
GA = 'C01,C02,C04,C06,C12,C13'
PSO = 'C14,C15,C16,C21'
R = []
def r(id, props, *edits): R.append((id, props, edits))

# --- genetic
r('g-push-inline', GA, (G, '''        let new_individual = Individual {
            chromosomes,
            fitness,
            alive: true,
        };

        self.individuals.push(new_individual);''', '''        self.individuals.push(Individual {
            alive: true,
            fitness,
            chromosomes,
        });'''))
r('g-append-iter', GA, (G, '''        for chromosome in chromosomes_list {
            self.push(chromosome);
        }''', '''        chromosomes_list
            .into_iter()
            .for_each(|chromosome| self.push(chromosome));'''))
r('g-append-while', GA, (G, '''        for chromosome in chromosomes_list {
            self.push(chromosome);
        }''', '''        let mut rest = chromosomes_list.into_iter();
        while let Some(chromosome) = rest.next() {
            self.push(chromosome);
        }'''))
r('g-cmp-merge', 'C02,C04', (G, '''        if goal_1.is_nan() && goal_2.is_nan() {
            Ordering::Greater
        } else if goal_1.is_nan() {
            Ordering::Greater
        } else if goal_2.is_nan() {''', '''        if goal_1.is_nan() {
            Ordering::Greater
        } else if goal_2.is_nan() {'''))
r('g-cmp-match', 'C02,C04', (G, '''        if goal_1.is_nan() && goal_2.is_nan() {
            Ordering::Greater
        } else if goal_1.is_nan() {
            Ordering::Greater
        } else if goal_2.is_nan() {
            Ordering::Less
        } else {
            goal_1.partial_cmp(&goal_2).unwrap()
        }''', '''        match (goal_1.is_nan(), goal_2.is_nan()) {
            (true, _) => Ordering::Greater,
            (false, true) => Ordering::Less,
            (false, false) => goal_1.partial_cmp(&goal_2).unwrap(),
        }'''))
r('g-run-loop-break', GA, (G, '''        while !self.stop_checker.can_stop(&self.population) {
            // Pairing''', '''        loop {
            if self.stop_checker.can_stop(&self.population) {
                break;
            }

            // Pairing'''))
r('g-run-helper', GA, (G, '''            // Selection
            for selection in &mut self.selections {
                selection.kill(&mut self.population);
            }

            self.population.remove_dead();''', '''            self.select();'''), (G, '''    fn run_pairing(&mut self) -> Vec<T> {''', '''    /// Kill the superfluous individuals.
    fn select(&mut self) {
        for selection in &mut self.selections {
            selection.kill(&mut self.population);
        }

        self.population.remove_dead();
    }

    fn run_pairing(&mut self) -> Vec<T> {'''))
r('g-mutants-loop', GA, (G, '''            let mut children_mutants: Vec<T> = children_chromo_list
                .iter_mut()
                .map(|chromo| self.mutation.mutation(chromo))
                .collect();''', '''            let mut children_mutants: Vec<T> = Vec::with_capacity(children_chromo_list.len());
            for chromo in children_chromo_list.iter() {
                children_mutants.push(self.mutation.mutation(chromo));
            }'''), (G, 'let mut children_chromo_list', 'let children_chromo_list'))
r('g-mutate-helper', GA, (G, '''            let mut children_mutants: Vec<T> = children_chromo_list
                .iter_mut()
                .map(|chromo| self.mutation.mutation(chromo))
                .collect();''', '''            let mut children_mutants = self.run_mutation(&mut children_chromo_list);'''), (G, '''    fn run_pairing(&mut self) -> Vec<T> {''', '''    fn run_mutation(&mut self, children: &mut Vec<T>) -> Vec<T> {
        children
            .iter_mut()
            .map(|chromo| self.mutation.mutation(chromo))
            .collect()
    }

    fn run_pairing(&mut self) -> Vec<T> {'''))
r('g-return-state', GA, (G, '''            logger.finish(&self.population);
        }

        match &self.population.best_individual {
            None => None,
            Some(individual) => Some((individual.chromosomes.clone(), individual.fitness)),
        }''', '''            logger.finish(&self.population);
        }

        self.population.get_best_solution()'''))
r('g-return-map', GA, (G, '''            logger.finish(&self.population);
        }

        match &self.population.best_individual {
            None => None,
            Some(individual) => Some((individual.chromosomes.clone(), individual.fitness)),
        }''', '''            logger.finish(&self.population);
        }

        self.population
            .best_individual
            .as_ref()
            .map(|individual| (individual.chromosomes.clone(), individual.fitness))'''))
r('g-pairing-map', GA, (G, '''            let mut cross_chromosomes = Vec::with_capacity(pair.len());
            for i in pair {
                cross_chromosomes.push(self.population[i].get_chromosomes());
            }
''', '''            let population = &self.population;
            let cross_chromosomes: Vec<&T> = pair
                .iter()
                .map(|i| population[*i].get_chromosomes())
                .collect();
'''))
r('g-pairing-extend', GA, (G, '''            let mut child_chromosomes = self.cross.cross(&cross_chromosomes);
            new_chromosomes.append(&mut child_chromosomes);''', '''            let child_chromosomes = self.cross.cross(&cross_chromosomes);
            new_chromosomes.extend(child_chromosomes);'''))
r('g-find-min-rename', GA, (G, '''        let start_chromo_list = self.creator.create();

        // Create individuals from chromosomes
        self.population.append(start_chromo_list);''', '''        let first_generation = self.creator.create();
        self.population.append(first_generation);'''))
r('g-reset-order', GA, (G, '''        self.individuals.clear();
        self.best_individual = None;
        self.worst_individual = None;
        self.iteration = 0;''', '''        self.iteration = 0;
        self.best_individual = None;
        self.worst_individual = None;
        self.individuals = vec![];'''))
r('g-len-alive-loop', 'C03,C28', (G, '''        self.individuals
            .iter()
            .filter(|individual| individual.is_alive())
            .count()''', '''        let mut count = 0;
        for individual in &self.individuals {
            if individual.is_alive() {
                count += 1;
            }
        }
        count'''))
r('g-retain-alive', GA, (G, 'self.individuals.retain(|individual| individual.is_alive());', 'self.individuals.retain(|individual| individual.alive);'))
r('g-loggers-for-each', GA, (G, '''        for logger in &mut self.loggers {
            logger.finish(&self.population);
        }''', '''        for logger in self.loggers.iter_mut() {
            logger.finish(&self.population);
        }'''))
r('g-order-iteration', GA, (G, '''            self.population.update_best_worst_individuals();

            self.population.next_iteration();''', '''            self.population.next_iteration();
            self.population.update_best_worst_individuals();'''))
r('g-state-match', 'C28,C01', (G, '''        match &self.best_individual {
            None => None,
            Some(individual) => Some((individual.chromosomes.clone(), individual.fitness)),
        }''', '''        if let Some(individual) = &self.best_individual {
            Some((individual.chromosomes.clone(), individual.fitness))
        } else {
            None
        }'''))
# --- selections
r('s-nan-filter', 'C05', (S, '''        for individual in population.iter_mut() {
            if !individual.get_fitness().is_finite() {
                individual.kill();
            }
        }''', '''        population
            .iter_mut()
            .filter(|individual| !individual.get_fitness().is_finite())
            .for_each(|individual| individual.kill());'''))
r('s-nan-helper', 'C05', (S, '''            if !individual.get_fitness().is_finite() {
                individual.kill();
            }
        }
    }
}''', '''            if is_bad(individual.get_fitness()) {
                individual.kill();
            }
        }
    }
}

fn is_bad(fitness: f64) -> bool {
    fitness.is_nan() || fitness.is_infinite()
}'''))
r('s-nan-index', 'C05', (S, '''        for individual in population.iter_mut() {
            if !individual.get_fitness().is_finite() {
                individual.kill();
            }
        }''', '''        for n in 0..population.len() {
            if !population[n].get_fitness().is_finite() {
                population[n].kill();
            }
        }'''))
r('s-limit-early', 'C03,C04', (S, '''        if alive_count > self.max_count {
            kill_worst(population, alive_count - self.max_count);
        }''', '''        if alive_count <= self.max_count {
            return;
        }

        kill_worst(population, alive_count - self.max_count);'''))
r('s-limit-sat', 'C03,C04', (S, '''        if alive_count > self.max_count {
            kill_worst(population, alive_count - self.max_count);
        }''', '''        kill_worst(population, alive_count.saturating_sub(self.max_count));'''))
r('s-worst-helper', 'C03,C04', (S, '''                // Find new best item
                best_index = 0;
                best_fitness = population[kill_list[best_index]].get_fitness();
                for m in 1..kill_list.len() {
                    if is_worse(best_fitness, population[kill_list[m]].get_fitness()) {
                        best_index = m;
                        best_fitness = population[kill_list[best_index]].get_fitness();
                    }
                }''', '''                best_index = find_best(population, &kill_list);
                best_fitness = population[kill_list[best_index]].get_fitness();'''), (S, '''fn is_worse(''', '''fn find_best<T: Clone>(population: &Population<T>, list: &Vec<usize>) -> usize {
    let mut best = 0;
    for m in 1..list.len() {
        if is_worse(population[list[best]].get_fitness(), population[list[m]].get_fitness()) {
            best = m;
        }
    }
    best
}

fn is_worse('''))
r('s-worst-let', 'C03,C04', (S, '''        if kill_list.len() < count {
            kill_list.push(n);
            if is_worse(best_fitness, population[n].get_fitness()) {
                best_index = kill_list.len() - 1;
                best_fitness = population[n].get_fitness();
            }
        } else {
            if is_worse(population[n].get_fitness(), best_fitness) {''', '''        let fitness = population[n].get_fitness();
        if kill_list.len() < count {
            if is_worse(best_fitness, fitness) {
                best_index = kill_list.len();
                best_fitness = fitness;
            }
            kill_list.push(n);
        } else {
            if is_worse(fitness, best_fitness) {'''))
r('s-worst-sort', 'C03,C04', (S, '''    // List of indexes of individuals in population to be kill
    let mut kill_list: Vec<usize> = Vec::with_capacity(count.min(population.len()));

    // Index of the items in kill_list with best fitness
    let mut best_index = 0;
    let mut best_fitness = f64::NAN;

    for n in 0..population.len() {
        if !population[n].is_alive() {
            continue;
        }

        if kill_list.len() < count {
            kill_list.push(n);
            if is_worse(best_fitness, population[n].get_fitness()) {
                best_index = kill_list.len() - 1;
                best_fitness = population[n].get_fitness();
            }
        } else {
            if is_worse(population[n].get_fitness(), best_fitness) {
                kill_list[best_index] = n;

                // Find new best item
                best_index = 0;
                best_fitness = population[kill_list[best_index]].get_fitness();
                for m in 1..kill_list.len() {
                    if is_worse(best_fitness, population[kill_list[m]].get_fitness()) {
                        best_index = m;
                        best_fitness = population[kill_list[best_index]].get_fitness();
                    }
                }
            }
        }
    }

    for n in kill_list {
        population[n].kill();
    }''', '''    let mut order: Vec<usize> = (0..population.len()).filter(|n| population[*n].is_alive()).collect();
    order.sort_by(|a, b| {
        let (x, y) = (population[*a].get_fitness(), population[*b].get_fitness());
        if is_worse(x, y) {
            std::cmp::Ordering::Less
        } else if is_worse(y, x) {
            std::cmp::Ordering::Greater
        } else {
            std::cmp::Ordering::Equal
        }
    });
    for n in order.into_iter().take(count) {
        population[n].kill();
    }'''))
r('sv-all', 'C05', (SV, '''            for (chromo, interval) in individual
                .get_chromosomes()
                .iter()
                .zip(self.intervals.iter())
            {
                if !chromo.is_finite() || *chromo < interval.0 || *chromo > interval.1 {
                    individual.kill();
                    break;
                }
            }''', '''            let outside = individual
                .get_chromosomes()
                .iter()
                .zip(self.intervals.iter())
                .any(|(chromo, interval)| {
                    !chromo.is_finite() || *chromo < interval.0 || *chromo > interval.1
                });
            if outside {
                individual.kill();
            }'''))
r('pb-all', 'C06', (PB, '''        for (chromo, interval) in chromosomes.iter().zip(self.intervals.iter()) {
            if !chromo.is_finite() || *chromo < interval.0 || *chromo > interval.1 {
                return false;
            }
        }

        true''', '''        chromosomes
            .iter()
            .zip(self.intervals.iter())
            .all(|(chromo, interval)| {
                chromo.is_finite() && *chromo >= interval.0 && *chromo <= interval.1
            })'''))
r('pb-index', 'C06', (PB, '''        for (chromo, interval) in chromosomes.iter().zip(self.intervals.iter()) {
            if !chromo.is_finite() || *chromo < interval.0 || *chromo > interval.1 {
                return false;
            }
        }

        true''', '''        for n in 0..chromosomes.len() {
            let (min, max) = self.intervals[n];
            if !chromosomes[n].is_finite() || chromosomes[n] < min || chromosomes[n] > max {
                return false;
            }
        }

        true'''))
r('pb-self-ref', 'C06', (PB, 'fn check_chromo(&mut self, chromosomes: &Vec<G>) -> bool {', 'fn check_chromo(&self, chromosomes: &Vec<G>) -> bool {'))
# --- pairing, creation, mutation, cross
r('p-random-push', 'C08', (P, '''            let pair = vec![first, second];
            pairs.push(pair);''', '''            pairs.push(vec![first, second]);'''))
r('p-random-map', 'C08', (P, '''        for _ in 0..count {
            let first = between.sample(&mut self.random);
            let second = between.sample(&mut self.random);
            let pair = vec![first, second];
            pairs.push(pair);
        }

        pairs''', '''        pairs.extend((0..count).map(|_| {
            let first = between.sample(&mut self.random);
            let second = between.sample(&mut self.random);
            vec![first, second]
        }));
        pairs'''))
r('p-tour-helper', 'C08', (P, '''                let mut best_ind_index = between.sample(&mut self.random);

                // Loop for tournaments rounds
                for _ in 0..self.rounds_count {
                    let challenger = between.sample(&mut self.random);
                    if population[challenger].get_goal() < population[best_ind_index].get_goal() {
                        best_ind_index = challenger;
                    }
                }
                family.push(best_ind_index);''', '''                let winner = self.play(population, &between);
                family.push(winner);'''), (P, '''    pub fn partners_count<'a>(mut self''', '''    fn play<T>(&mut self, population: &Population<T>, between: &Uniform<usize>) -> usize {
        let mut best_ind_index = between.sample(&mut self.random);
        for _ in 0..self.rounds_count {
            let challenger = between.sample(&mut self.random);
            if population[challenger].get_goal() < population[best_ind_index].get_goal() {
                best_ind_index = challenger;
            }
        }
        best_ind_index
    }

    pub fn partners_count<'a>(mut self'''))
r('p-tour-goal-var', 'C08', (P, '''                    let challenger = between.sample(&mut self.random);
                    if population[challenger].get_goal() < population[best_ind_index].get_goal() {''', '''                    let challenger = between.sample(&mut self.random);
                    let best_goal = population[best_ind_index].get_goal();
                    let goal = population[challenger].get_goal();
                    if best_goal > goal {'''))
r('c-create-map', 'C07', (C, '''            let mut chromo = Vec::with_capacity(chromo_count);
            for interval in &self.intervals {
                let between = Uniform::new_inclusive(
                    interval.0.to_f64().unwrap(),
                    interval.1.to_f64().unwrap(),
                );
                chromo.push(G::from(between.sample(&mut self.random)).unwrap());
            }

            population.push(chromo);''', '''            let mut chromo = Vec::with_capacity(chromo_count);
            for (min, max) in self.intervals.iter() {
                let from = min.to_f64().unwrap();
                let to = max.to_f64().unwrap();
                let value = Uniform::new_inclusive(from, to).sample(&mut self.random);
                chromo.push(G::from(value).unwrap());
            }

            population.push(chromo);'''))
r('c-init-loop', 'C07', (I, '''impl<T: NumCast + PartialOrd> CoordinatesInitializer<T> for RandomCoordinatesInitializer<T> {
    fn get_coordinates(&mut self) -> Vec<Vec<T>> {
        (0..self.particles_count)
            .map(|_| self.vector_creator.create_vec(&self.intervals))
            .collect()''', '''impl<T: NumCast + PartialOrd> CoordinatesInitializer<T> for RandomCoordinatesInitializer<T> {
    fn get_coordinates(&mut self) -> Vec<Vec<T>> {
        let mut result = Vec::with_capacity(self.particles_count);
        for _ in 0..self.particles_count {
            result.push(self.vector_creator.create_vec(&self.intervals));
        }
        result'''))
r('c-zero-clone', 'C07', (I, '''        (0..self.particles_count)
            .map(|_| vec![T::zero(); self.dimension])
            .collect()''', '''        let mut result = Vec::with_capacity(self.particles_count);
        for _ in 0..self.particles_count {
            result.push(vec![T::zero(); self.dimension]);
        }
        result'''))
r('c-vec-direct', 'C07', (TM, '''        let result = intervals
            .iter()
            .map(|(min, max)| {
                let between = Uniform::new_inclusive(min.to_f64().unwrap(), max.to_f64().unwrap());
                T::from(between.sample(&mut self.random)).unwrap()
            })
            .collect();

        result''', '''        let mut result = Vec::with_capacity(intervals.len());
        for (min, max) in intervals {
            let between = Uniform::new_inclusive(min.to_f64().unwrap(), max.to_f64().unwrap());
            result.push(T::from(between.sample(&mut self.random)).unwrap());
        }
        result'''))
r('m-bit-mask', 'C11', (M, '''        let size = mem::size_of::<f64>() * 8;
        let between = Uniform::new(0, size);

        let mut bit_value = gene.to_bits();
        for _ in 0..self.change_gene_count {
            let pos = between.sample(&mut self.random);
            bit_value ^= 1 << pos;
        }''', '''        let size = mem::size_of::<f64>() * 8;
        let between = Uniform::new(0, size);

        let mut bit_value = gene.to_bits();
        for _ in 0..self.change_gene_count {
            let mask = 1u64 << between.sample(&mut self.random);
            bit_value = bit_value ^ mask;
        }'''))
r('m-vec-if', 'C11', (M, '''            if mutate.sample(&mut self.random) < self.probability {
                result.push(self.single_mutation.mutation(&chromo));
            } else {
                result.push(chromo.clone());
            }''', '''            let gene = if mutate.sample(&mut self.random) < self.probability {
                self.single_mutation.mutation(&chromo)
            } else {
                chromo.clone()
            };
            result.push(gene);'''))
r('m-vec-map', 'C11', (M, '''        let mut result = Vec::with_capacity(chromosomes.len());

        for chromo in chromosomes {
            if mutate.sample(&mut self.random) < self.probability {
                result.push(self.single_mutation.mutation(&chromo));
            } else {
                result.push(chromo.clone());
            }
        }

        result''', '''        chromosomes
            .iter()
            .map(|chromo| {
                if mutate.sample(&mut self.random) < self.probability {
                    self.single_mutation.mutation(chromo)
                } else {
                    chromo.clone()
                }
            })
            .collect()'''))
r('x-mask-not', 'C09,C10', (X, '''    let mask_parent_1 = !0u64 << pos;
    let mask_parent_2 = !0u64 >> (size - pos);
    (parent_1 & mask_parent_1) | (parent_2 & mask_parent_2)''', '''    let mask_parent_2 = !0u64 >> (size - pos);
    (parent_1 & !mask_parent_2) | (parent_2 & mask_parent_2)'''))
r('x-mask-helper', 'C09,C10', (X, '''    let size = mem::size_of::<u32>() * 8;
    let mask_parent_1 = !0u32 << pos;
    let mask_parent_2 = !0u32 >> (size - pos);
    (parent_1 & mask_parent_1) | (parent_2 & mask_parent_2)''', '''    let mask = low_mask_u32(pos);

    (parent_1 & !mask) | (parent_2 & mask)'''), (X, '''pub fn cross_f32(''', '''fn low_mask_u32(pos: usize) -> u32 {
    !0u32 >> (32 - pos)
}

pub fn cross_f32('''))
r('x-xor', 'C09,C10', (X, '''    let mask_parent_1 = !0u8 << pos;
    let mask_parent_2 = !0u8 >> (size - pos);
    (parent_1 & mask_parent_1) | (parent_2 & mask_parent_2)''', '''    let mask = !0u8 >> (size - pos);

    parent_1 ^ ((parent_1 ^ parent_2) & mask)'''))
r('x-f64-inline', 'C09,C10', (X, '''    let parent_1_bits = parent_1.to_bits();
    let parent_2_bits = parent_2.to_bits();

    let child_bits = cross_u64(parent_1_bits, parent_2_bits, pos);
    f64::from_bits(child_bits)''', '''    f64::from_bits(cross_u64(parent_1.to_bits(), parent_2.to_bits(), pos))'''))
r('x-mean-loop', 'C10', (X, '''        let mut result: G = parents_genes
            .iter()
            .fold(G::zero(), |x, y| x + (**y).clone());

        result = result / G::from(parents_genes.len()).unwrap();
        vec![result]''', '''        let mut sum = G::zero();
        for gene in parents_genes {
            sum = sum + (**gene).clone();
        }
        let count = G::from(parents_genes.len()).unwrap();
        vec![sum / count]'''))
r('x-all-arr', 'C10', (X, '''            let mut new_gene = self
                .single_cross
                .cross(vec![&parent_1[n], &parent_2[n]].as_slice());
            child.append(&mut new_gene);''', '''            let mut new_gene = self.single_cross.cross(&[&parent_1[n], &parent_2[n]]);
            child.append(&mut new_gene);'''))
r('x-bit-pos', 'C10', (X, '''        let pos = between.sample(&mut self.random);

        vec![cross_f64(*parents_genes[0], *parents_genes[1], pos)]''', '''        let (first, second) = (*parents_genes[0], *parents_genes[1]);
        let child = cross_f64(first, second, between.sample(&mut self.random));
        vec![child]'''))
# --- pso
r('w-move-if', PSO, (W, '''        self.coordinates = new_coordinates;
        self.value = value;

        if compare_floats(value, self.best_personal_value) == Ordering::Less {
            self.best_personal_coordinates = self.coordinates.clone();
            self.best_personal_value = value;
        }
''', '''        if compare_floats(value, self.best_personal_value) == Ordering::Less {
            self.best_personal_coordinates = new_coordinates.clone();
            self.best_personal_value = value;
        }

        self.coordinates = new_coordinates;
        self.value = value;
'''))
r('w-cmp-flat', PSO, (W, '''    if !x.is_finite() && !y.is_finite() {
        Ordering::Equal
    } else if x.is_finite() && !y.is_finite() {
        Ordering::Less
    } else if !x.is_finite() && y.is_finite() {
        Ordering::Greater
    } else {
        if x > y {
            Ordering::Greater
        } else if x < y {
            Ordering::Less
        } else {
            Ordering::Equal
        }
    }''', '''    match (x.is_finite(), y.is_finite()) {
        (false, false) => Ordering::Equal,
        (true, false) => Ordering::Less,
        (false, true) => Ordering::Greater,
        (true, true) => x.partial_cmp(&y).unwrap(),
    }'''))
r('w-cmp-vars', PSO, (W, '''    if !x.is_finite() && !y.is_finite() {
        Ordering::Equal
    } else if x.is_finite() && !y.is_finite() {
        Ordering::Less
    } else if !x.is_finite() && y.is_finite() {
        Ordering::Greater
    } else {
        if x > y {
            Ordering::Greater
        } else if x < y {
            Ordering::Less
        } else {
            Ordering::Equal
        }
    }''', '''    let x_finite = x.is_finite();
    let y_finite = y.is_finite();
    if x_finite && y_finite {
        if x > y {
            return Ordering::Greater;
        }
        if x < y {
            return Ordering::Less;
        }
        return Ordering::Equal;
    }

    if x_finite {
        Ordering::Less
    } else if y_finite {
        Ordering::Greater
    } else {
        Ordering::Equal
    }'''))
r('w-best-loop', PSO, (W, '''        if particles.is_empty() {
            None
        } else {
            let particle = particles
                .iter()
                .min_by(|p1, p2| compare_floats(p1.value, p2.value))
                .unwrap();
            Some(particle.clone())
        }''', '''        particles
            .iter()
            .min_by(|p1, p2| compare_floats(p1.value, p2.value))
            .map(|particle| particle.clone())'''))
r('w-update-map', PSO, (W, '''            match &self.best_particle {
                None => {
                    self.best_particle = Some(new_best_particle.clone());
                }
                Some(old_best_particle) => {
                    if compare_floats(new_best_particle.value, old_best_particle.value)
                        == Ordering::Less
                    {
                        self.best_particle = Some(new_best_particle.clone());
                    }
                }
            }''', '''            let better = match &self.best_particle {
                None => true,
                Some(old_best_particle) => {
                    compare_floats(new_best_particle.value, old_best_particle.value)
                        == Ordering::Less
                }
            };
            if better {
                self.best_particle = Some(new_best_particle);
            }'''))
r('w-post-loop', PSO, (W, '''                self.post_move
                    .iter_mut()
                    .for_each(|post_move| post_move.post_move(&mut new_coordinates));''', '''                for post_move in &mut self.post_move {
                    post_move.post_move(&mut new_coordinates);
                }'''))
r('w-coord-loop', PSO, (W, '''                let mut new_coordinates: Coordinate<T> = self.swarm.particles[n]
                    .coordinates
                    .iter()
                    .zip(self.swarm.particles[n].velocity.iter())
                    .map(|(coord, velocity)| *coord + *velocity)
                    .collect();''', '''                let particle = &self.swarm.particles[n];
                let mut new_coordinates: Coordinate<T> = particle
                    .coordinates
                    .iter()
                    .zip(particle.velocity.iter())
                    .map(|(coord, velocity)| *velocity + *coord)
                    .collect();'''))
r('w-step-helper', PSO, (W, '''            for n in 0..self.swarm.particles.len() {
                // Calculate new velocity
                let mut new_velocity = self
                    .velocity_calculator
                    .calc_new_velocity(&self.swarm, &self.swarm.particles[n]);

                // Correct new velocity
                for post_velocity_calc in &mut self.post_velocity_calc {
                    new_velocity = post_velocity_calc.correct_velocity(new_velocity);
                }

                self.swarm.particles[n].set_velocity(new_velocity);
''', '''            for n in 0..self.swarm.particles.len() {
                let new_velocity = self.new_velocity(n);
                self.swarm.particles[n].set_velocity(new_velocity);
'''), (W, '''    fn renew_swarm(&mut self) {''', '''    fn new_velocity(&mut self, n: usize) -> Velocity<T> {
        let mut new_velocity = self
            .velocity_calculator
            .calc_new_velocity(&self.swarm, &self.swarm.particles[n]);

        for post_velocity_calc in &mut self.post_velocity_calc {
            new_velocity = post_velocity_calc.correct_velocity(new_velocity);
        }

        new_velocity
    }

    fn renew_swarm(&mut self) {'''))
r('w-renew-loop', PSO, (W, '''        let particles: Vec<Particle<T>> = coordinates
            .iter()
            .zip(velocity.iter())
            .map(|cs| {
                let particle_coordinate = cs.0.clone();
                let particle_velocity = cs.1.clone();
                let particle_value = self.goal.get(cs.0);
                Particle::new(particle_coordinate, particle_velocity, particle_value)
            })
            .collect();
''', '''        let mut particles: Vec<Particle<T>> = Vec::with_capacity(coordinates.len());
        for (particle_coordinates, particle_velocity) in coordinates.into_iter().zip(velocity) {
            let value = self.goal.get(&particle_coordinates);
            particles.push(Particle::new(particle_coordinates, particle_velocity, value));
        }
'''))
r('w-renew-args', PSO, (W, '''            .map(|cs| {
                let particle_coordinate = cs.0.clone();
                let particle_velocity = cs.1.clone();
                let particle_value = self.goal.get(cs.0);
                Particle::new(particle_coordinate, particle_velocity, particle_value)
            })''', '''            .map(|(coordinate, velocity)| {
                let value = self.goal.get(coordinate);
                Particle::new(coordinate.clone(), velocity.clone(), value)
            })'''))
r('w-order-worst', PSO, (W, '''            self.swarm.update_best_particle();
            self.swarm.update_worst_particle();
            self.swarm.next_iteration();''', '''            self.swarm.next_iteration();
            self.swarm.update_worst_particle();
            self.swarm.update_best_particle();'''))
r('w-agents-collect', 'C28', (W, '''        let mut agents: Vec<&Self::Agent> = Vec::with_capacity(self.len());
        for particle in self.particles.iter() {
            agents.push(particle);
        }

        agents''', '''        self.particles.iter().collect()'''))
r('w-clone-struct', 'C28,C15', (W, '''        let mut particle = Particle::new(self.coordinates.clone(), self.velocity.clone(), self.value);
        particle.best_personal_coordinates = self.best_personal_coordinates.clone();
        particle.best_personal_value = self.best_personal_value;
        particle.worst_personal_coordinates = self.worst_personal_coordinates.clone();
        particle.worst_personal_value = self.worst_personal_value;
        particle''', '''        Self {
            coordinates: self.coordinates.clone(),
            velocity: self.velocity.clone(),
            value: self.value,
            best_personal_coordinates: self.best_personal_coordinates.clone(),
            best_personal_value: self.best_personal_value,
            worst_personal_coordinates: self.worst_personal_coordinates.clone(),
            worst_personal_value: self.worst_personal_value,
        }'''))
# --- pso parts
r('v-classic-terms', 'C19', (V, '''            let velocity_item = particle.velocity[i]
                + self.phi_personal
                    * r_personal
                    * (particle.best_personal_coordinates[i] - particle.coordinates[i])
                + self.phi_global * r_global * (global_best_solution[i] - particle.coordinates[i]);
            new_velocity.push(velocity_item);
        }

        new_velocity
    }
}

/// ''', '''            let personal = particle.best_personal_coordinates[i] - particle.coordinates[i];
            let global = global_best_solution[i] - particle.coordinates[i];
            let velocity_item = particle.velocity[i]
                + self.phi_personal * r_personal * personal
                + self.phi_global * r_global * global;
            new_velocity.push(velocity_item);
        }

        new_velocity
    }
}

/// '''))
r('v-inertia-lin', 'C20', (V, '''        self.w_max
            - (self.w_max - self.w_min) * T::from(iteration).unwrap() / T::from(self.t_max).unwrap()''', '''        let t = T::from(iteration).unwrap();
        let t_max = T::from(self.t_max).unwrap();
        let range = self.w_max - self.w_min;
        self.w_max - range * t / t_max'''))
r('v-best-coords', 'C19', (V, '''        let global_best_particle = swarm.best_particle.as_ref().unwrap();
        let global_best_solution = &global_best_particle.coordinates;
        let inertia_ratio''', '''        let global_best_solution = &swarm.best_particle.as_ref().unwrap().coordinates;
        let inertia_ratio'''))
r('pm-bound-else', 'C17', (PM, '''            if !coordinates[i].is_finite() {
                coordinates[i] = self.intervals[i].0;
            }

            if coordinates[i] < self.intervals[i].0 {
                coordinates[i] = self.intervals[i].0;
            }

            if coordinates[i] > self.intervals[i].1 {
                coordinates[i] = self.intervals[i].1;
            }''', '''            let (min, max) = self.intervals[i];
            if !coordinates[i].is_finite() {
                coordinates[i] = min;
            }

            if coordinates[i] < min {
                coordinates[i] = min;
            }

            if coordinates[i] > max {
                coordinates[i] = max;
            }'''))
r('pm-bound-zip', 'C17', (PM, '''        for i in 0..coordinates.len() {
            if !coordinates[i].is_finite() {
                coordinates[i] = self.intervals[i].0;
            }

            if coordinates[i] < self.intervals[i].0 {
                coordinates[i] = self.intervals[i].0;
            }

            if coordinates[i] > self.intervals[i].1 {
                coordinates[i] = self.intervals[i].1;
            }
        }''', '''        for (x, interval) in coordinates.iter_mut().zip(self.intervals.iter()) {
            if !x.is_finite() {
                *x = interval.0;
            }

            if *x < interval.0 {
                *x = interval.0;
            }

            if *x > interval.1 {
                *x = interval.1;
            }
        }'''))
r('pm-tele-early', 'C17', (PM, '''        let teleport = self.probability > rnd;
        if teleport {
            for i in 0..coordinates.len() {
                coordinates[i] = self.random_intervals[i].sample(&mut self.random);
            }
        }''', '''        if self.probability > rnd {
            for (x, interval) in coordinates.iter_mut().zip(&self.random_intervals) {
                *x = interval.sample(&mut self.random);
            }
        }'''))
r('pv-dim-loop', 'C18', (PV, '''        let new_velocity = velocity
            .iter()
            .zip(self.max_velocity.iter())
            .map(|(v, v_max)| {
                if v.abs() <= *v_max {
                    *v
                } else {
                    v_max.abs() * v.signum()
                }
            })
            .collect();

        new_velocity''', '''        let mut new_velocity = Vec::with_capacity(velocity.len());
        for (v, v_max) in velocity.iter().zip(&self.max_velocity) {
            if v.abs() <= *v_max {
                new_velocity.push(*v);
            } else {
                new_velocity.push(v_max.abs() * v.signum());
            }
        }

        new_velocity'''))
r('pv-abs-early', 'C18', (PV, '''        if current_velocity_abs > self.max_velocity {
            let new_velocity = velocity
                .iter()
                .map(|vi| (*vi) * self.max_velocity / current_velocity_abs)
                .collect();
            new_velocity
        } else {
            velocity
        }''', '''        if !(current_velocity_abs > self.max_velocity) {
            return velocity;
        }

        velocity
            .into_iter()
            .map(|vi| vi * self.max_velocity / current_velocity_abs)
            .collect()'''))
# --- tools
r('k-any', 'C22', (K, '''        for checker in &mut self.stop_checkers {
            if checker.can_stop(state) {
                return true;
            }
        }

        false''', '''        self.stop_checkers
            .iter_mut()
            .any(|checker| checker.can_stop(state))'''))
r('k-all', 'C22', (K, '''        for checker in &mut self.stop_checkers {
            if !checker.can_stop(state) {
                return false;
            }
        }

        true''', '''        self.stop_checkers
            .iter_mut()
            .all(|checker| checker.can_stop(state))'''))
r('k-empty', 'C22', (K, '''        assert!(stop_checkers.len() != 0);
        Self { stop_checkers }''', '''        assert!(!stop_checkers.is_empty());
        Self { stop_checkers }'''))
r('k-threshold', 'C22', (K, '''        match state.get_best_solution() {
            None => false,
            Some((_, goal)) => goal <= self.threshold,
        }''', '''        if let Some((_, goal)) = state.get_best_solution() {
            goal <= self.threshold
        } else {
            false
        }'''))
r('k-threshold-map', 'C22', (K, '''        match state.get_best_solution() {
            None => false,
            Some((_, goal)) => goal <= self.threshold,
        }''', '''        state
            .get_best_solution()
            .map_or(false, |(_, goal)| goal <= self.threshold)'''))
r('k-goal-iter', 'C23', (K, '''                let delta = (best_goal - self.old_goal).abs();
                // The iterations start over if the algorithm was restarted
                let restarted = state.get_iteration() < self.change_iter;
                if delta > self.delta || restarted {
                    self.old_goal = best_goal;
                    self.change_iter = state.get_iteration();
                }

                (state.get_iteration() - self.change_iter) > self.max_iter''', '''                let iteration = state.get_iteration();
                let restarted = iteration < self.change_iter;
                if restarted || (best_goal - self.old_goal).abs() > self.delta {
                    self.change_iter = iteration;
                    self.old_goal = best_goal;
                }

                iteration - self.change_iter > self.max_iter'''))
r('t-inc-add', 'C27', (T, '''    pub fn increment(&mut self) {
        if self.0.len() == 0 {
            self.0.push(0);
        }
        let index = self.0.len() - 1;

        self.0[index] += 1;
    }''', '''    pub fn increment(&mut self) {
        self.add(1);
    }'''))
r('t-inc-last', 'C27', (T, '''        let index = self.0.len() - 1;

        self.0[index] += 1;''', '''        *self.0.last_mut().unwrap() += 1;'''))
r('t-avg-call', 'C27', (T, '''        let sum: usize = self.0.iter().sum();
        let count = self.0.len();
        if count == 0 {
            None
        } else {
            Some((sum as f64) / (count as f64))
        }''', '''        if self.0.is_empty() {
            return None;
        }

        let sum: usize = self.0.iter().sum();
        Some((sum as f64) / (self.0.len() as f64))'''))
r('t-unite-extend', 'C24,C27', (T, '''        self.results.append(&mut other.results);
        self.convergence.append(&mut other.convergence);''', '''        self.convergence.append(&mut other.convergence);
        self.results.append(&mut other.results);'''))
r('t-min-map', 'C25', (T, '''        if self.is_empty() {
            0
        } else {
            self.iter().fold(self[0].len(), |min_len, x| {
                if x.len() < min_len {
                    x.len()
                } else {
                    min_len
                }
            })
        }''', '''        self.iter().map(|run| run.len()).min().unwrap_or(0)'''))
r('t-min-loop', 'C25', (T, '''        if self.is_empty() {
            0
        } else {
            self.iter().fold(self[0].len(), |min_len, x| {
                if x.len() < min_len {
                    x.len()
                } else {
                    min_len
                }
            })
        }''', '''        if self.is_empty() {
            return 0;
        }

        let mut min_len = self[0].len();
        for run in self.iter() {
            min_len = min_len.min(run.len());
        }
        min_len'''))
r('t-conv-iter', 'C25', (T, '''            for run in 0..run_count {
                if let Some(solution) = &self[run][i] {
                    sum += solution.1;
                    sum_count += 1;
                }
            }
''', '''            for run in self.iter() {
                if let Some((_, goal)) = &run[i] {
                    sum_count += 1;
                    sum += *goal;
                }
            }
'''), (T, '''        let run_count = self.len();
        let min_iterations = self''', '''        let min_iterations = self'''))
r('t-goal-loop', 'C25', (T, '''        let success_solutions = self.iter().filter_map(|x| x.as_ref());
        let count = success_solutions.clone().count();
        let sum = success_solutions.fold(0 as GoalValue, |acc, (_, goal)| acc + goal);

        if count == 0 {''', '''        let mut count = 0;
        let mut sum = 0 as GoalValue;
        for solution in self.iter() {
            if let Some((_, goal)) = solution {
                sum += goal;
                count += 1;
            }
        }

        if count == 0 {'''))
r('t-rate-direct', 'C26', (T, '''        let count = self.len();
        match count {
            0 => None,
            _ => {
                let success_solutions = self
                    .iter()
                    .filter_map(|x| x.as_ref())
                    .filter(|solution| predicate(solution));
                Some(success_solutions.count() as f64 / (count as f64))
            }
        }''', '''        if self.is_empty() {
            return None;
        }

        let success_count = self
            .iter()
            .filter_map(|x| x.as_ref())
            .filter(|solution| predicate(solution))
            .count();
        Some(success_count as f64 / (self.len() as f64))'''))
r('t-pred-all', 'C26', (T, '''        for (x, (e, d)) in answer.iter().zip(expected.iter().zip(delta.iter())) {
            let distance = (*x - *e).abs();
            if distance > *d || distance.is_nan() || d.is_nan() {
                return false;
            }
        }
        true''', '''        answer
            .iter()
            .zip(expected.iter().zip(delta.iter()))
            .all(|(x, (e, d))| (*x - *e).abs() <= *d)'''))
r('t-conv-last', 'C24', (T, '''        let run_index = self.convergence.len() - 1;
        self.convergence[run_index].push(state.get_best_solution().clone());''', '''        self.convergence
            .last_mut()
            .unwrap()
            .push(state.get_best_solution());'''))
r('t-start-newrun', 'C24', (T, '''        self.statistics.convergence.push(vec![]);''', '''        let run = Vec::new();
        self.statistics.convergence.push(run);'''))
r('f-paraboloid', 'C30', (F, '''        result = result + (*val - (G::from(n).unwrap() + G::from(1.0).unwrap())).powi(2);''', '''        let center = G::from(n).unwrap() + G::from(1.0).unwrap();
        result = result + (*val - center).powi(2);'''))
r('f-schwefel', 'C30', (F, '''    let result = G::from(418.9829).unwrap() * G::from(x.len()).unwrap() - x.iter().fold(G::zero(), |acc, &xi| acc + xi * xi.abs().sqrt().sin());
''', '''    let sum = x.iter().fold(G::zero(), |acc, &xi| acc + xi * xi.abs().sqrt().sin());
    let result = G::from(418.9829).unwrap() * G::from(x.len()).unwrap() - sum;
'''))
r('f-schwefel-loop', 'C30', (F, '''    let result = G::from(418.9829).unwrap() * G::from(x.len()).unwrap() - x.iter().fold(G::zero(), |acc, &xi| acc + xi * xi.abs().sqrt().sin());
''', '''    let mut sum = G::zero();
    for xi in x {
        sum = sum + *xi * xi.abs().sqrt().sin();
    }
    let result = G::from(418.9829).unwrap() * G::from(x.len()).unwrap() - sum;
'''))
r('f-rosen', 'C30', (F, '''        sum = sum + G::from(100.0).unwrap() * ((x[n + 1] - x[n] * x[n]).powi(2)) + (G::from(1.0).unwrap() - x[n]).powi(2);''', '''        let valley = (x[n + 1] - x[n] * x[n]).powi(2);
        let slope = (G::from(1.0).unwrap() - x[n]).powi(2);
        sum = sum + G::from(100.0).unwrap() * valley + slope;'''))
r('w-state-map', 'C28,C14', (W, '''impl<T: Clone> AlgorithmState<Coordinate<T>> for Swarm<T> {
    fn get_best_solution(&self) -> Option<(Coordinate<T>, f64)> {
        match &self.best_particle {
            None => None,
            Some(particle) => Some((particle.coordinates.clone(), particle.value)),
        }''', '''impl<T: Clone> AlgorithmState<Coordinate<T>> for Swarm<T> {
    fn get_best_solution(&self) -> Option<(Coordinate<T>, f64)> {
        self.best_particle
            .as_ref()
            .map(|particle| (particle.coordinates.clone(), particle.value))'''))

# --- text loggers
LG = 'optlib/src/tools/logging/mod.rs'
r('l-push-str', 'C29', (LG, 'result = result + &format!("{:<8}", state.get_iteration());', 'result.push_str(&format!("{:<8}", state.get_iteration()));'),
  (LG, 'result = result + &format!("  {:<20.*}", self.precision, x);', 'result += &format!("  {:<20.*}", self.precision, x);'))
r('l-direct', 'C29', (LG, """            let mut result = String::new();
            result = result + &format!("{:<8}", state.get_iteration());
""", """            let mut result = format!("{:<8}", state.get_iteration());
"""))
r('l-match', 'C29', (LG, """        match state.get_best_solution() {
            None => writeln!(&mut self.writer, "Solution not found").unwrap(),
            Some((solution, goal)) => {""", """        match state.get_best_solution() {
            None => {
                writeln!(self.writer, "Solution not found").unwrap();
            }
            Some((solution, goal)) => {"""))
r('l-write', 'C29', (LG, """                let mut result = String::new();
                result = result + "Solution:\n";

                for x in solution {
                    result = result + &format!("  {:.*}\n", self.precision, x);
                }

                result = result + "\n";
                writeln!(&mut self.writer, "{}", result).unwrap();
""", """                writeln!(self.writer, "Solution:").unwrap();
                for x in &solution {
                    writeln!(self.writer, "  {:.*}", self.precision, x).unwrap();
                }
                writeln!(self.writer).unwrap();
                writeln!(self.writer).unwrap();
"""))
r('l-millis', 'C29', (LG, """        let time_ms = duration.as_secs() * 1000 + duration.subsec_millis() as u64;
""", """        let time_ms = duration.as_millis();
"""))
r('l-named', 'C29', (LG, """            result = result + &format!("  {:20.*}", self.precision, goal);

            writeln!(&mut self.writer, "{}", result).unwrap();""", """            let precision = self.precision;
            writeln!(&mut self.writer, "{}  {:20.prec$}", result, goal, prec = precision).unwrap();"""))
r('l-helper', 'C29', (LG, """impl<'a> VerboseLogger<'a> {
""", """/// One column of the output.
fn column<T: Display>(x: &T, precision: usize) -> String {
    format!("  {:<20.*}", precision, x)
}

impl<'a> VerboseLogger<'a> {
"""), (LG, 'result = result + &format!("  {:<20.*}", self.precision, x);', 'result = result + &column(&x, self.precision);'))
r('l-map', 'C29', (LG, """            for x in solution {
                result = result + &format!("  {:<20.*}", self.precision, x);
            }
""", """            let columns: Vec<String> = solution
                .iter()
                .map(|x| format!("  {:<20.*}", self.precision, x))
                .collect();
            result = result + &columns.concat();
"""))

def main():
    import sys, os, subprocess, shutil
    out = sys.argv[1]
    only = sys.argv[2:]
    os.makedirs(out, exist_ok=True)
    scr = '/tmp/refscr'
    shutil.rmtree(scr, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', scr], check=True)
    for id, props, edits in R:
        if only and id not in only:
            continue
        subprocess.run(['git', '-C', scr, 'checkout', '-q', '--', '.'])
        bad = None
        for f, a, b in edits:
            s = open(scr + '/' + f).read()
            if a not in s:
                bad = 'text not found in %s: %s' % (f, a[:80]); break
            open(scr + '/' + f, 'w').write(s.replace(a, b, 1))
        if not bad:
            p = subprocess.run(['cargo', 'test', '--offline', '--workspace', '--lib', '-q'], cwd=scr, capture_output=True, text=True)
            if p.returncode: bad = (p.stderr + p.stdout)[-1500:]
        if bad:
            print(id, 'BAD', bad, flush=True); continue
        d = subprocess.run(['git', '-C', scr, 'diff'], capture_output=True, text=True).stdout
        open('%s/%s.diff' % (out, id), 'w').write(d)
        open('%s/%s.props' % (out, id), 'w').write(props)
        print(id, 'ok', flush=True)
    shutil.rmtree(scr, ignore_errors=True)

if __name__ == '__main__':
    main()
