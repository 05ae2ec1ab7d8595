L = 'optlib/src/tools/logging/mod.rs'
PRE = '''
use optlib::tools::logging::*;
use optlib::AlgorithmState;
struct S(usize, Option<(Vec<f64>, f64)>);
impl AlgorithmState<Vec<f64>> for S {
    fn get_best_solution(&self) -> Option<(Vec<f64>, f64)> { self.1.clone() }
    fn get_iteration(&self) -> usize { self.0 }
}
'''
BUGS = [
 dict(id='c29-glued-columns', property='C29', needs='a coordinate that needs more characters than the column is wide',
  breaks='the columns of the verbose logger run into each other when a value fills its column',
  edits=[(L, 'result = result + &format!("  {:<20.*}", self.precision, x);', 'result = result + &format!("{:<22.*}", self.precision, x);')],
  demo=PRE + '''
fn main() {
    let mut out = vec![];
    { let mut l = VerboseLogger::new(&mut out, 6);
      for x in &[1.5f64, -12.25, 12345678901234567890.0] { l.next_iteration(&S(3, Some((vec![*x, 2.0], 1.0)))); } }
    let s = String::from_utf8(out).unwrap();
    for l in s.lines() { assert_eq!(l.split_whitespace().count(), 4, "{}", l); }
}
'''),
 dict(id='c29-goal-single', property='C29', needs='a goal value that needs double precision',
  breaks='the verbose logger prints the goal through single precision',
  edits=[(L, 'result = result + &format!("  {:20.*}", self.precision, goal);', 'result = result + &format!("  {:20.*}", self.precision, goal as f32);')],
  demo=PRE + '''
fn main() {
    let mut out = vec![];
    { let mut l = VerboseLogger::new(&mut out, 9); l.next_iteration(&S(3, Some((vec![1.0, 2.0], 0.123456789)))); }
    let s = String::from_utf8(out).unwrap();
    assert_eq!(s.split_whitespace().last(), Some("0.123456789"));
}
'''),
 dict(id='c29-long-solution', property='C29', needs='a solution of more than sixteen coordinates',
  breaks='the result logger prints only the first coordinates of a long solution',
  edits=[(L, '''                result = result + "Solution:\\n";

                for x in solution {''', '''                result = result + "Solution:\\n";

                for x in solution.iter().take(16) {''')],
  demo=PRE + '''
fn main() {
    for n in &[0usize, 3, 16, 40] {
        let mut out = vec![];
        { let mut l = ResultOnlyLogger::new(&mut out, 1); Logger::<Vec<f64>>::finish(&mut l, &S(3, Some((vec![1.5; *n], 0.5)))); }
        let s = String::from_utf8(out).unwrap();
        assert_eq!(s.split_whitespace().filter(|w| *w == "1.5").count(), *n);
    }
}
'''),
 dict(id='c29-time-kept', property='C29', needs='a continued run: a second resume of the same logger',
  breaks='the elapsed time of a continuation counts from the first start of the run',
  edits=[(L, 'self.start_time = Some(time::Instant::now());', 'if self.start_time.is_none() {\n            self.start_time = Some(time::Instant::now());\n        }')],
  demo=PRE + '''
fn main() {
    let mut out = vec![];
    { let mut t = TimeLogger::new(&mut out);
      let l: &mut dyn Logger<Vec<f64>> = &mut t;
      let s = S(1, None);
      l.resume(&s); std::thread::sleep(std::time::Duration::from_millis(400)); l.finish(&s);
      l.resume(&s); l.finish(&s); }
    let s = String::from_utf8(out).unwrap();
    let v: Vec<u64> = s.split_whitespace().filter_map(|w| w.parse().ok()).collect();
    assert_eq!(v.len(), 2);
    assert!(v[0] >= 400 && v[1] < 350, "{:?}", v);
}
'''),
 dict(id='c29-seconds-wrap', property='C29', needs='a run of at least one second',
  breaks='the elapsed time of runs of a second and more is printed without the full seconds scaled to milliseconds',
  edits=[(L, 'duration.as_secs() * 1000 + duration.subsec_millis() as u64', 'duration.as_secs() * 100 + duration.subsec_millis() as u64')],
  demo=PRE + '''
fn main() {
    let mut out = vec![];
    { let mut t = TimeLogger::new(&mut out);
      let l: &mut dyn Logger<Vec<f64>> = &mut t;
      let s = S(1, None);
      l.resume(&s); std::thread::sleep(std::time::Duration::from_millis(1100)); l.finish(&s); }
    let s = String::from_utf8(out).unwrap();
    let v: Vec<u64> = s.split_whitespace().filter_map(|w| w.parse().ok()).collect();
    assert!(v.len() == 1 && v[0] >= 1100, "{:?}", v);
}
'''),
 dict(id='c29-worse-silent', property='C29', needs='a best value that is not finite',
  breaks='the verbose logger prints nothing while the best goal is not finite',
  edits=[(L, 'if let Some((solution, goal)) = state.get_best_solution() {\n            let mut', 'if let Some((solution, goal)) = state.get_best_solution().filter(|x| x.1.is_finite()) {\n            let mut')],
  demo=PRE + '''
fn main() {
    let mut out = vec![];
    { let mut l = VerboseLogger::new(&mut out, 2); for g in &[1.0, std::f64::INFINITY, std::f64::NAN] { l.next_iteration(&S(3, Some((vec![1.0, 2.0], *g)))); } }
    let s = String::from_utf8(out).unwrap();
    assert_eq!(s.lines().count(), 3);
}
'''),
]
