//! A pairing on a small supersingular curve, y² = x³ + x over a field of 63 bits, with groups of
//! a prime order of 59 bits. Nothing is hard in it; it stands in for a real curve where an
//! execution has to be cheap: many schedules, long vectors, slow instrumentation. Events of
//! probability 1/r still do not happen.
//!
//! Both groups are the points of order r; e(P, Q) = f_{r,P}(−x_Q, i·y_Q)^((p²−1)/r).
//!
//! `Micro` is the same over a field of 19 bits, with groups of order 12289, for the interpreter.
//! There results mean little (collisions happen), only whether the execution was sound.
#![allow(non_local_definitions)]

macro_rules! small_curve {
    ($m:ident, $name:ident, $p:literal, $pg:literal, $r:literal, $rg:literal, $k:literal, $ki:literal, $x:literal, $y:literal) => {
        pub use $m::$name;
        pub mod $m {
        use ark_ec::{
            models::CurveConfig,
            pairing::{MillerLoopOutput, Pairing, PairingOutput},
            short_weierstrass::{Affine, Projective, SWCurveConfig},
            AffineRepr, CurveGroup,
        };
        use ark_ff::{BigInteger, Field, Fp2, Fp2Config, Fp64, MontBackend, MontFp, One, PrimeField, Zero};
        use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};

        #[derive(ark_ff::MontConfig)]
        #[modulus = $p]
        #[generator = $pg]
        pub struct FqConfig;
        pub type Fq = Fp64<MontBackend<FqConfig, 1>>;

        #[derive(ark_ff::MontConfig)]
        #[modulus = $r]
        #[generator = $rg]
        pub struct FrConfig;
        pub type Fr = Fp64<MontBackend<FrConfig, 1>>;

        pub struct Fq2Config;
        impl Fp2Config for Fq2Config {
            type Fp = Fq;
            const NONRESIDUE: Fq = MontFp!("-1");
            const FROBENIUS_COEFF_FP2_C1: &'static [Fq] = &[MontFp!("1"), MontFp!("-1")];
        }
        pub type Fq2 = Fp2<Fq2Config>;

        #[derive(Clone, Copy, Default, PartialEq, Eq)]
        pub struct Curve;
        impl CurveConfig for Curve {
            type BaseField = Fq;
            type ScalarField = Fr;
            const COFACTOR: &'static [u64] = &[$k];
            const COFACTOR_INV: Fr = MontFp!($ki);
        }
        impl SWCurveConfig for Curve {
            const COEFF_A: Fq = MontFp!("1");
            const COEFF_B: Fq = MontFp!("0");
            const GENERATOR: Affine<Self> = Affine::new_unchecked(MontFp!($x), MontFp!($y));
        }
        type G = Projective<Curve>;
        type A = Affine<Curve>;

        /// A point as it goes into the pairing.
        #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, CanonicalSerialize, CanonicalDeserialize)]
        pub struct Prepared(A);
        impl From<A> for Prepared {
            fn from(a: A) -> Self {
                Prepared(a)
            }
        }
        impl From<&A> for Prepared {
            fn from(a: &A) -> Self {
                Prepared(*a)
            }
        }
        impl From<G> for Prepared {
            fn from(a: G) -> Self {
                Prepared(a.into_affine())
            }
        }
        impl From<&G> for Prepared {
            fn from(a: &G) -> Self {
                Prepared(a.into_affine())
            }
        }

        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct $name;

        fn miller(p: &A, q: &A) -> Fq2 {
            let mut f = Fq2::one();
            if p.is_zero() || q.is_zero() {
                return f;
            }
            let (mut x, mut y, mut z) = (p.x, p.y, Fq::one());
            let bits = Fr::MODULUS.to_bits_be();
            let first = bits.iter().position(|b| *b).unwrap();
            for b in &bits[first + 1..] {
                if z.is_zero() {
                    return f;
                }
                // tangent; scaled by elements of the base field, which the final exponentiation removes
                let (xx, yy, zz) = (x.square(), y.square(), z.square());
                let m = xx.double() + xx + zz.square();
                let yz = y * z;
                f.square_in_place();
                f *= Fq2::new(m * (q.x * zz + x) - yy.double(), yz.double() * zz * q.y);
                let s = (x * yy).double().double();
                let nx = m.square() - s.double();
                y = m * (s - nx) - yy.square().double().double().double();
                x = nx;
                z = yz.double();
                if *b {
                    let zz = z.square();
                    let h = p.x * zz - x;
                    let r = p.y * zz * z - y;
                    if h.is_zero() {
                        // a vertical line, or a doubling that points of order r do not meet here
                        z = Fq::zero();
                        continue;
                    }
                    let zh = z * h;
                    f *= Fq2::new(r * (q.x + p.x) - p.y * zh, zh * q.y);
                    let hh = h.square();
                    let (hhh, v) = (hh * h, x * hh);
                    let nx = r.square() - hhh - v.double();
                    y = r * (v - nx) - y * hhh;
                    x = nx;
                    z = zh;
                }
            }
            f
        }

        impl Pairing for $name {
            type BaseField = Fq;
            type ScalarField = Fr;
            type G1 = G;
            type G1Affine = A;
            type G1Prepared = Prepared;
            type G2 = G;
            type G2Affine = A;
            type G2Prepared = Prepared;
            type TargetField = Fq2;

            fn multi_miller_loop(
                a: impl IntoIterator<Item = impl Into<Prepared>>,
                b: impl IntoIterator<Item = impl Into<Prepared>>,
            ) -> MillerLoopOutput<Self> {
                MillerLoopOutput(a.into_iter().zip(b).map(|(p, q)| miller(&p.into().0, &q.into().0)).product())
            }

            fn final_exponentiation(f: MillerLoopOutput<Self>) -> Option<PairingOutput<Self>> {
                let f = f.0;
                let mut g = f;
                g.conjugate_in_place();
                // (p − 1) and (p + 1)/r
                f.inverse().map(|i| PairingOutput((g * i).pow([$k as u64])))
            }
        }

        /// What a pairing has to satisfy, on random points; the monitors run it before they use the curve.
        pub fn self_check(seed: u64) -> Result<(), String> {
            use ark_ec::Group;
            use ark_std::rand::{rngs::StdRng, SeedableRng};
            use ark_std::UniformRand;
            let mut r = StdRng::seed_from_u64(seed);
            let e = $name::pairing(G::generator(), G::generator());
            let g = A::generator();
            if !g.is_on_curve() || !g.is_in_correct_subgroup_assuming_on_curve() {
                return Err("generator".into());
            }
            if e.is_zero() || !(e * Fr::zero()).is_zero() || !e.mul_bigint(Fr::MODULUS).is_zero() {
                return Err("order".into());
            }
            for _ in 0..20 {
                let (a, b) = (Fr::rand(&mut r), Fr::rand(&mut r));
                if $name::pairing(G::generator() * a, G::generator() * b) != e * (a * b) {
                    return Err(format!("bilinearity at {a} {b}"));
                }
                let p = G::rand(&mut r);
                if !p.into_affine().is_in_correct_subgroup_assuming_on_curve() {
                    return Err("random point".into());
                }
                if $name::pairing(p * a, p * b) != $name::pairing(p, p) * (a * b) || $name::pairing(p, p).is_zero() {
                    return Err("bilinearity at a random point".into());
                }
                if !$name::pairing(p, G::zero()).is_zero() || !$name::pairing(G::zero(), p).is_zero() {
                    return Err("neutral".into());
                }
            }
            Ok(())
        }
        }
    };
}

small_curve!(curve_59, Mini, "6917512689585487883", "2", "576459390798790657", "5", 12, "528421108232224769", "4901965240181932633", "5094336458918700987");
small_curve!(curve_14, Micro, "393247", "3", "12289", "11", 32, "11905", "333006", "158620");

#[cfg(test)]
mod tests {
    #[test]
    fn pairing() {
        super::curve_59::self_check(1).unwrap();
        super::curve_14::self_check(1).unwrap();
        for s in 0..40u64 {
            for k in 0..crate::battery::PARTS {
                crate::battery::table::<super::Mini>(s, Some(k));
            }
        }
    }
}
