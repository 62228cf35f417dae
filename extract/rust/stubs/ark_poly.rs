use ark_ff::FftField;
pub trait EvaluationDomain<F: FftField>: Sized + Copy { fn new(n: usize) -> Option<Self>; fn compute_size_of_domain(_n: usize) -> Option<usize> { loop {} } fn size(&self) -> usize { loop {} } fn evaluate_all_lagrange_coefficients(&self, _t: F) -> Vec<F> { loop {} } fn evaluate_vanishing_polynomial(&self, _t: F) -> F { loop {} } fn group_gen(&self) -> F { loop {} } fn elements(&self) -> std::vec::IntoIter<F> { loop {} } fn fft(&self, _: &[F]) -> Vec<F> { loop {} } fn ifft(&self, _: &[F]) -> Vec<F> { loop {} } }
#[derive(Clone, Copy, Debug)] pub struct GeneralEvaluationDomain<F>(std::marker::PhantomData<F>); impl<F: FftField> EvaluationDomain<F> for GeneralEvaluationDomain<F> { fn new(_: usize) -> Option<Self> { loop {} } }
#[derive(Clone, Copy, Debug)] pub struct Radix2EvaluationDomain<F>(std::marker::PhantomData<F>); impl<F: FftField> EvaluationDomain<F> for Radix2EvaluationDomain<F> { fn new(_: usize) -> Option<Self> { loop {} } }
