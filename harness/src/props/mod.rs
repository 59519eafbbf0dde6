use crate::engine::Prop;

// one feature per property, see check.sh
#[cfg(feature = "c01")]
mod c01;
#[cfg(feature = "c02")]
mod c02;
#[cfg(feature = "c03")]
mod c03;
#[cfg(feature = "c04")]
mod c04;
#[cfg(feature = "c05")]
mod c05;
#[cfg(feature = "c06")]
mod c06;
#[cfg(any(feature = "c07", feature = "c08", feature = "c09"))]
mod c07;
#[cfg(feature = "c08")]
mod c08;
#[cfg(feature = "c09")]
mod c09;
#[cfg(any(feature = "c10", feature = "c24", feature = "c26"))]
mod c10;
#[cfg(any(feature = "c11", feature = "c12", feature = "c20", feature = "c23", feature = "c24"))]
mod c11;
#[cfg(any(feature = "c12", feature = "c20", feature = "c23", feature = "c24"))]
mod c12;
#[cfg(feature = "c13")]
mod c13;
#[cfg(any(feature = "c14", feature = "c24", feature = "c26"))]
mod c14;
#[cfg(feature = "c15")]
mod c15;
#[cfg(feature = "c16")]
mod c16;
#[cfg(any(feature = "c17", feature = "c24", feature = "c26"))]
mod c17;
#[cfg(feature = "c18")]
mod c18;
#[cfg(feature = "c19")]
mod c19;
#[cfg(feature = "c20")]
mod c20;
#[cfg(feature = "c21")]
mod c21;
#[cfg(feature = "c22")]
mod c22;
#[cfg(feature = "c23")]
mod c23;
#[cfg(feature = "c24")]
mod c24;
#[cfg(feature = "c25")]
mod c25;
#[cfg(feature = "c26")]
mod c26;
#[cfg(feature = "c27")]
mod c27;

pub fn all() -> Vec<Prop> {
    vec![
        #[cfg(feature = "c01")]
        c01::prop(),
        #[cfg(feature = "c02")]
        c02::prop(),
        #[cfg(feature = "c03")]
        c03::prop(),
        #[cfg(feature = "c04")]
        c04::prop(),
        #[cfg(feature = "c05")]
        c05::prop(),
        #[cfg(feature = "c06")]
        c06::prop(),
        #[cfg(feature = "c07")]
        c07::prop(),
        #[cfg(feature = "c08")]
        c08::prop(),
        #[cfg(feature = "c09")]
        c09::prop(),
        #[cfg(feature = "c10")]
        c10::prop(),
        #[cfg(feature = "c11")]
        c11::prop(),
        #[cfg(feature = "c12")]
        c12::prop(),
        #[cfg(feature = "c13")]
        c13::prop(),
        #[cfg(feature = "c14")]
        c14::prop(),
        #[cfg(feature = "c15")]
        c15::prop(),
        #[cfg(feature = "c16")]
        c16::prop(),
        #[cfg(feature = "c17")]
        c17::prop(),
        #[cfg(feature = "c18")]
        c18::prop(),
        #[cfg(feature = "c19")]
        c19::prop(),
        #[cfg(feature = "c20")]
        c20::prop(),
        #[cfg(feature = "c21")]
        c21::prop(),
        #[cfg(feature = "c22")]
        c22::prop(),
        #[cfg(feature = "c23")]
        c23::prop(),
        #[cfg(feature = "c24")]
        c24::prop(),
        #[cfg(feature = "c25")]
        c25::prop(),
        #[cfg(feature = "c26")]
        c26::prop(),
        #[cfg(feature = "c27")]
        c27::prop(),
    ]
}
