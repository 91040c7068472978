/*
MIT License
Copyright (c)  Germán Molina
Permission is hereby granted, free of charge, to any person obtaining a copy
of this software and associated documentation files (the "Software"), to deal
in the Software without restriction, including without limitation the rights
to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
copies of the Software, and to permit persons to whom the Software is
furnished to do so, subject to the following conditions:
The above copyright notice and this permission notice shall be included in all
copies or substantial portions of the Software.
THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
SOFTWARE.
*/

use model::{Construction, Model, Substance};

use crate::Float;

/// An abstraction of a glazing layer for optical purposes.
///
/// All properties can be Solar or Visible spectral averages, or they
/// can be constrained to a specific wavelength. However, this library—because
/// it is all about heat transfer—only uses them in Solar purposes
#[derive(Debug, Clone, Copy)]
pub struct Glazing {
    /// Transmittance $`\tau`$
    tau: Float,

    /// Reflectance $`\rho_f`$ on the front side.
    rho_front: Float,

    /// Reflectance $`\rho_b`$ on the back side
    rho_back: Float,

    /// Absorbtance $`\alpha_f`$ on the front side
    alpha_front: Float,

    /// Absorbtance $`\alpha_b`$ on the back side
    alpha_back: Float,
}

impl Glazing {
    /// Creates a new `Glazing`
    pub fn new(tau: Float, rho_front: Float, rho_back: Float) -> Self {
        assert!(tau >= 0.0, "Found transmittance less than Zero");
        assert!(tau <= 1., "Found transmittance more than 1");
        assert!(rho_front >= 0.0, "Found front reflectance less than 0.");
        assert!(rho_back >= 0.0, "Found back reflectance less than 0");
        assert!(rho_front <= 1., "Found front reflectance more than 1.");
        assert!(rho_back <= 1., "Found back reflectance more than 1.");

        Self {
            tau,
            rho_back,
            rho_front,
            alpha_front: 1. - tau - rho_front,
            alpha_back: 1. - tau - rho_back,
        }
    }

    fn get_glazing_from_iter<T>(mut i: T, model: &Model, cap: usize) -> Result<Vec<Glazing>, String>
    where
        T: std::iter::Iterator<Item = String>,
    {
        let mut ret = Vec::with_capacity(cap);
        loop {
            // Get layer
            let mat_name = i.next().ok_or("could not get next layer name")?;
            let sub = model.get_material_substance(&mat_name)?;
            match sub {
                Substance::Gas(_) => {
                    // if it is a gas, something went wong.
                    panic!("NOT expecting a gas")
                }
                Substance::Normal(s) => {
                    // if it is a normal, the push it
                    let tau = s.solar_transmittance().unwrap_or(&0.0);
                    let alpha_front = s.front_solar_absorbtance().unwrap_or(&0.84);
                    let alpha_back = s.back_solar_absorbtance().unwrap_or(&0.84);
                    let rho_front = 1. - tau - alpha_front;
                    let rho_back = 1. - tau - alpha_back;
                    ret.push(Glazing::new(*tau, rho_front, rho_back));

                    // if not translucent, then we are done.
                    if *tau < 1e-9 {
                        break;
                    }
                }
            }
            // We only get here if we pushed somthing and need to continue... so, this should be a cavity... if any
            if let Some(mat_name) = i.next() {
                let sub = model.get_material_substance(&mat_name)?;
                if let Substance::Normal(_) = sub {
                    panic!("Expecting a Gas")
                }
            } else {
                // Else, we are done
                break;
            }
        }
        Ok(ret)
    }

    /// Gets the front translucent layers in a construction
    pub fn get_front_glazing_system(
        construction: &Construction,
        model: &Model,
    ) -> Result<Vec<Glazing>, String> {
        if construction.materials.is_empty() {
            return Err(format!(
                "Trying to get front_glazing_system of an empty construction, called '{}'",
                construction.name()
            ));
        }

        let i = construction.materials.iter().cloned();
        Self::get_glazing_from_iter(i, model, construction.materials.len())
    }

    /// Gets the front back translucent in a construction
    pub fn get_back_glazing_system(
        construction: &Construction,
        model: &Model,
    ) -> Result<Vec<Glazing>, String> {
        let i = construction.materials.iter().cloned().rev();
        Self::get_glazing_from_iter(i, model, construction.materials.len())
    }

    /// Gets the transmittance
    pub fn tau(&self) -> Float {
        self.tau
    }

    /// Gets the front reflectance
    pub fn rho_front(&self) -> Float {
        self.rho_front
    }

    /// Gets the back reflectance
    pub fn rho_back(&self) -> Float {
        self.rho_back
    }

    /// Gets the front absorbtance
    pub fn alpha_front(&self) -> Float {
        self.alpha_front
    }

    /// Gets the back absorbtance
    pub fn alpha_back(&self) -> Float {
        self.alpha_back
    }

    /// Calculates the overall transmittance of a system of two glazing layers
    ///
    /// Source: ISO-9050/2003, Equation 2
    ///
    /// ```math
    /// \tau_{1-2} = \frac{\tau_1 \tau_2}{1 - \rho'_1 \rho_2}
    /// ```
    ///
    /// This equation—along with the others in this module—can
    /// be used recursively, treating two layers combined as a single one
    /// and then attaching a third one. That is to say:
    ///
    /// ```math
    ///
    /// \tau_{1-3} = \frac{\tau_{1-2} \times \tau_3}{1 - \rho'_{1-2} \rho_3}
    /// ```
    pub fn combined_tau(&self, other: &Self) -> Float {
        self.tau * other.tau / (1. - self.rho_back * other.rho_front)
    }

    /// Calculates the overall front reflectance of a system of two glazing layers
    ///
    /// Source: ISO-9050/2003, Equation 5
    ///
    /// ```math
    /// \rho_{1-2} = \rho_1 + \frac{{\tau_1}^2 \rho_2}{1 - \rho'_1 \rho_2}
    /// ```
    pub fn combined_rho_front(&self, other: &Self) -> Float {
        self.rho_front + self.tau.powi(2) * other.rho_front / (1. - self.rho_back * other.rho_front)
    }

    /// Calculates the overall back reflectance of a system of two glazing layers
    ///
    /// This equation is not explicitly written on the standard I think, but we
    /// can derive it by drawing the system and assinging the corresponding values
    /// to Equation 5 of the same standard
    ///     
    /// ```math
    /// \rho'_{1-2} = \rho'_2 + \frac{{\tau_2}^2 \rho'_1}{1 - \rho_2 \rho'_1}
    /// ```
    pub fn combined_rho_back(&self, other: &Self) -> Float {
        other.rho_back + other.tau.powi(2) * self.rho_back / (1. - other.rho_front * self.rho_back)
    }

    /// Combines two `Glazing` into a new `Glazing`
    ///
    /// This method returns the equivalent glazing layer
    /// resulting after combining `self` with another `Glazing`,
    /// recalculating the reflectances and transmittance
    pub fn combine(&self, other: &Self) -> Self {
        let rho_back = self.combined_rho_back(other);
        let rho_front = self.combined_rho_front(other);
        let tau = self.combined_tau(other);
        Self::new(tau, rho_front, rho_back)
    }

    /// Combines several `Glazing` into a new `Glazing`
    pub fn combine_layers(layers: &[Glazing]) -> Self {
        if layers.len() == 1 {
            // if only one, then return.
            layers[0]
        } else {
            // otherwise, divide and conquer.
            let rest = Self::combine_layers(&layers[1..]);
            layers[0].combine(&rest)
        }
    }

    /// Calculates the front solar absorbtance of two `Glazing`
    /// according to Equations 17 and 18 of ISO9050/2003
    ///
    /// The resulting absorbtances are
    ///
    /// ```math
    /// \alpha_{e1} = \alpha_1 + \frac{\alpha'_1 \tau_1 \rho_2 }{1 - \rho'_1 \rho_2}
    ///
    /// ```
    ///
    /// and
    ///
    /// ```math
    /// \alpha_{e2} = \frac{\alpha_2 \tau_1}{1 - \rho'_1 \rho_2}
    /// ```
    pub fn combined_alphas(&self, other: &Self) -> (Float, Float) {
        let denom = 1. - self.rho_back * other.rho_front;
        let a1 = self.alpha_front + self.alpha_back * self.tau * other.rho_front / denom;
        let a2 = other.alpha_front * self.tau / denom;
        (a1, a2)
    }

    /// Calculates the absorbtances of each `Glazing` of the system, proportional
    /// to the incident radiation (i.e., they do not add up to 1.0)
    ///
    /// This function assumes that there is a layer of air (i.e., a cavity)
    /// between the glazing layers.
    pub fn alphas(layers: &[Glazing]) -> Vec<Float> {
        let mut ret = Vec::with_capacity(layers.len());

        // Trivial cases
        if layers.is_empty() {
            return ret;
        } else if layers.len() == 1 {
            ret.push(layers[0].alpha_front);
            return ret;
        }

        let mut acc_alpha = 0.0;

        for i in 1..layers.len() {
            let g0 = Self::combine_layers(&layers[0..i]);
            let g1 = Self::combine_layers(&layers[i..]);
            let (a0, _) = g0.combined_alphas(&g1);
            ret.push(a0 - acc_alpha);
            acc_alpha = a0;
        }

        // fill the last one
        let g0 = Self::combine_layers(&layers[0..layers.len() - 1]);
        let g1 = layers.last().unwrap();
        let (_, a1) = g0.combined_alphas(g1);
        ret.push(a1);
        ret
    }
}

