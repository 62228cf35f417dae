pub mod gr1cs {
 use ark_ff::Field; use std::collections::BTreeMap; use std::cell::{Ref, RefMut};
 pub type Matrix<F> = Vec<Vec<(F, usize)>>; pub type Label = String; pub const R1CS_PREDICATE_LABEL: &str = "R1CS"; pub const SR1CS_PREDICATE_LABEL: &str = "SR1CS";
 #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum SynthesisError { MissingCS, AssignmentMissing, DivisionByZero, Unsatisfiable, PolynomialDegreeTooLarge, UnexpectedIdentity, MalformedVerifyingKey, UnconstrainedVariable, ArityMismatch, PredicateNotFound }
 impl std::fmt::Display for SynthesisError { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } } impl std::error::Error for SynthesisError {}
 pub type Result<T> = core::result::Result<T, SynthesisError>;
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct Variable; #[allow(non_upper_case_globals)] impl Variable { pub const One: Variable = Variable; pub const Zero: Variable = Variable; pub const ONE: Variable = Variable; pub const ZERO: Variable = Variable; #[allow(non_snake_case)] pub fn Instance(_: usize) -> Variable { loop {} } #[allow(non_snake_case)] pub fn Witness(_: usize) -> Variable { loop {} } pub fn instance(_: usize) -> Variable { loop {} } pub fn witness(_: usize) -> Variable { loop {} } pub fn is_one(&self) -> bool { loop {} } }
 #[derive(Debug, Clone, PartialEq, Eq)] pub struct LinearCombination<F>(pub Vec<(F, Variable)>); impl<F: Field> LinearCombination<F> { pub fn new() -> Self { loop {} } pub fn zero() -> Self { loop {} } pub fn compactify(&mut self) { loop {} } pub fn is_zero(&self) -> bool { loop {} } }
 impl<F: Field> std::ops::Add<(F, Variable)> for LinearCombination<F> { type Output = Self; fn add(self, _: (F, Variable)) -> Self { loop {} } } impl<F: Field> std::ops::Sub<(F, Variable)> for LinearCombination<F> { type Output = Self; fn sub(self, _: (F, Variable)) -> Self { loop {} } } impl<F: Field> std::ops::AddAssign<(F, Variable)> for LinearCombination<F> { fn add_assign(&mut self, _: (F, Variable)) { loop {} } } impl<F: Field> std::ops::Add<Variable> for LinearCombination<F> { type Output = Self; fn add(self, _: Variable) -> Self { loop {} } } impl<F: Field> std::ops::Add<LinearCombination<F>> for LinearCombination<F> { type Output = Self; fn add(self, _: Self) -> Self { loop {} } } impl<F: Field> std::ops::Sub<LinearCombination<F>> for LinearCombination<F> { type Output = Self; fn sub(self, _: Self) -> Self { loop {} } } impl<F: Field> std::ops::Mul<F> for LinearCombination<F> { type Output = Self; fn mul(self, _: F) -> Self { loop {} } } impl<F: Field> std::ops::AddAssign<LinearCombination<F>> for LinearCombination<F> { fn add_assign(&mut self, _: Self) { loop {} } }
 impl<F: Field> From<Variable> for LinearCombination<F> { fn from(_: Variable) -> Self { loop {} } } impl<F: Field> From<(F, Variable)> for LinearCombination<F> { fn from(_: (F, Variable)) -> Self { loop {} } } impl<F: Field> Default for LinearCombination<F> { fn default() -> Self { loop {} } }
 #[macro_export] macro_rules! lc { () => { $crate::gr1cs::LinearCombination::zero() } }
 pub use lc;
 pub trait ConstraintSynthesizer<F: Field> { fn generate_constraints(self, cs: ConstraintSystemRef<F>) -> Result<()>; }
 #[derive(Debug, Clone)] pub struct ConstraintSystem<F: Field>(std::marker::PhantomData<F>);
 #[derive(Debug, Clone)] pub struct ConstraintSystemRef<F: Field>(std::marker::PhantomData<F>);
 #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum OptimizationGoal { None, Constraints, Weight } #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum SynthesisMode { Setup, Prove { construct_matrices: bool, generate_lc_assignments: bool } }
 impl<F: Field> ConstraintSystem<F> { pub fn new() -> Self { loop {} } pub fn new_ref() -> ConstraintSystemRef<F> { loop {} } pub fn instance_assignment(&self) -> Result<&[F]> { loop {} } pub fn witness_assignment(&self) -> Result<&[F]> { loop {} } pub fn num_constraints(&self) -> usize { loop {} } pub fn num_instance_variables(&self) -> usize { loop {} } pub fn num_witness_variables(&self) -> usize { loop {} } pub fn is_satisfied(&self) -> Result<bool> { loop {} } pub fn assigned_value(&self, _v: Variable) -> Option<F> { loop {} } }
 impl<F: Field> ConstraintSystemRef<F> { pub fn new(_c: ConstraintSystem<F>) -> Self { loop {} } pub fn borrow(&self) -> Option<Ref<'_, ConstraintSystem<F>>> { loop {} } pub fn borrow_mut(&self) -> Option<RefMut<'_, ConstraintSystem<F>>> { loop {} } pub fn into_inner(self) -> Option<ConstraintSystem<F>> { loop {} } pub fn num_constraints(&self) -> usize { loop {} } pub fn num_instance_variables(&self) -> usize { loop {} } pub fn num_witness_variables(&self) -> usize { loop {} } pub fn num_variables(&self) -> usize { loop {} } pub fn instance_assignment(&self) -> Result<Vec<F>> { loop {} } pub fn witness_assignment(&self) -> Result<Vec<F>> { loop {} } pub fn is_satisfied(&self) -> Result<bool> { loop {} } pub fn which_is_unsatisfied(&self) -> Result<Option<String>> { loop {} } pub fn which_predicate_is_unsatisfied(&self) -> Result<Option<String>> { loop {} } pub fn to_matrices(&self) -> Result<BTreeMap<Label, Vec<Matrix<F>>>> { loop {} } pub fn finalize(&self) { loop {} } pub fn inline_all_lcs(&self) { loop {} } pub fn outline_lcs(&self) -> Result<()> { loop {} } pub fn set_mode(&self, _m: SynthesisMode) { loop {} } pub fn set_optimization_goal(&self, _g: OptimizationGoal) { loop {} } pub fn is_in_setup_mode(&self) -> bool { loop {} } pub fn should_construct_matrices(&self) -> bool { loop {} } pub fn assigned_value(&self, _v: Variable) -> Option<F> { loop {} }
  pub fn new_input_variable<Func: FnOnce() -> Result<F>>(&self, _f: Func) -> Result<Variable> { loop {} } pub fn new_witness_variable<Func: FnOnce() -> Result<F>>(&self, _f: Func) -> Result<Variable> { loop {} } pub fn new_lc<Func: FnOnce() -> LinearCombination<F>>(&self, _f: Func) -> Result<Variable> { loop {} }
  pub fn enforce_constraint(&self, _l: &str, _v: impl IntoIterator<Item = Box<dyn FnOnce() -> LinearCombination<F>>>) -> Result<()> { loop {} } pub fn enforce_r1cs_constraint(&self, _a: impl FnOnce() -> LinearCombination<F>, _b: impl FnOnce() -> LinearCombination<F>, _c: impl FnOnce() -> LinearCombination<F>) -> Result<()> { loop {} } pub fn enforce_constraint_arity_3(&self, _l: &str, _a: impl FnOnce() -> LinearCombination<F>, _b: impl FnOnce() -> LinearCombination<F>, _c: impl FnOnce() -> LinearCombination<F>) -> Result<()> { loop {} } }
}
pub use gr1cs::*;
