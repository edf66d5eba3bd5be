//! Reference model for the scatter plot.
use super::*;

pub fn plot<T: Clone + Eq + Hash + DataType>(map: &[(T, usize)], x_label: &str, y_label: &str, title: &str, pathname: &str) {
  let mut xs: Vec<T> = Vec::new();
  for entry in map {
    xs.push(entry.0.clone());
  }
  let mut ys: Vec<f64> = Vec::new();
  for entry in map {
    ys.push((entry.1 as f64).log2());
  }
  let mut figure = Figure::new();
  figure
    .axes2d()
    .points(xs, ys, &[PointSymbol('O'), Color("#ffaa77"), PointSize(1.2)])
    .set_x_label(x_label, &[Rotate(45.0)])
    .set_y_label(y_label, &[Rotate(90.0)])
    .set_title(title, &[]);
  figure.set_terminal("pngcairo", pathname);
  figure.show().unwrap();
}
