/*
MIT License
Copyright (c)  Germán Molina
Permission is hereby granted, free of charge, to any person obtaining a copy
of this software and associated documentation files (the "Software"), to deal
in the Software without restriction, including without limitation the rights
to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
copies of the Software, and to permit persons to whom the Software is
furnished to do so, subject to the following conditions:
The above copyright notice and this permission notice shall be included in all
copies or substantial portions of the Software.
THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
SOFTWARE.
*/

use crate::convection::ConvectionParams;
use crate::discretization::Discretization;
use crate::glazing::Glazing;
use crate::Float;
use geometry::Vector3D;
use matrix::{Matrix, NDiagGenericMatrix, NDiagMatrix};
use model::{
    Boundary, Construction, Fenestration, Model, SimulationStateHeader, Substance, Surface,
    SurfaceTrait, TerrainClass,
};
use model::{SimulationState, SiteDetails};
use std::sync::Arc;

/// Calculates whether a surface is facing the wind direction
/// **wind_direction in Radians**
pub fn is_windward(wind_direction: Float, cos_tilt: Float, normal: Vector3D) -> bool {
    if cos_tilt.abs() < 0.98 {
        // tilted
        let wind_direction = Vector3D::new(wind_direction.sin(), wind_direction.cos(), 0.0);
        normal * wind_direction > 0.0
    } else {
        // if it is horizontal
        true
    }
}

/// The memory needed to simulate the marching forward
/// of a massive chunk
#[derive(Debug, Clone)]
pub struct ChunkMemory {
    /// memory for a matrix
    pub temps: Vec<Float>,
    /// memory for a matrix
    pub aux: Vec<Float>,
    /// memory for a matrix
    pub k: NDiagGenericMatrix<3, Float>,
    /// memory for a matrix
    pub c: Vec<Float>,
    /// memory for a matrix
    pub q: Vec<Float>,
    /// memory for a matrix
    pub k1: Vec<Float>,

    /// memory for a matrix
    pub k2: Vec<Float>,
    /// memory for a matrix
    pub k3: Vec<Float>,
    /// memory for a matrix
    pub k4: Vec<Float>,
}

fn add_assign(a: &mut [Float], b: &[Float]) {
    a.iter_mut().zip(b).for_each(|(x, y)| *x += y)
}

fn scale(a: &mut [Float], v: Float) {
    a.iter_mut().for_each(|x| *x *= v);
}

impl ChunkMemory {
    /// Allocates memory for running a simulation of a chunk.
    ///
    /// This means allocating matrices
    pub fn new(ini: usize, fin: usize) -> Self {
        let n = fin - ini;
        Self::with_capacity(n)
    }

    /// Creates a Chunk with capacity of 'n' nodes
    pub fn with_capacity(n: usize) -> Self {
        ChunkMemory {
            aux: vec![0.0; n],
            k: NDiagMatrix::<3>::new(0.0, n, n),
            c: vec![0.0; n],
            q: vec![0.0; n],
            temps: vec![0.0; n],
            k1: vec![0.0; n],
            k2: vec![0.0; n],
            k3: vec![0.0; n],
            k4: vec![0.0; n],
        }
    }
}

/// The memory needed to simulate the marching of
/// a surface
#[derive(Debug, Clone)]
pub struct SurfaceMemory {
    /// Memory for each massive chunk
    pub(crate) massive_chunks: Vec<ChunkMemory>,
    /// Memory for each no-mass chunk
    pub(crate) nomass_chunks: Vec<ChunkMemory>,
    /// The temperatures
    pub(crate) temperatures: Matrix,
    /// The absorbed solar radiation in the nodes
    pub(crate) solar_radiation: Matrix,
    /// Necessary for storyting a temporary variable when calculating
    /// absorbed solar radiation in the nodes
    pub(crate) solar_radiation_aux: Matrix,
}

fn rearrange_k(dt: Float, memory: &mut ChunkMemory) -> Result<(), String> {
    let crows = memory.c.len();
    // Rearrenge into dT = (dt/C) * K + (dt/C)*q
    for nrow in 0..crows {
        let v = dt / memory.c[nrow];
        // transform k into k_prime (i.e., k * dt/C)
        let ini = if nrow == 0 { 0 } else { nrow - 1 };
        let fin = if nrow == crows - 1 {
            crows - 1
        } else {
            nrow + 1
        };
        // for ncol in 0..kcols{
        for ncol in ini..=fin {
            memory.k.scale_element(nrow, ncol, v)?;
        }
        memory.q[nrow] *= v;
    }
    Ok(())
}

/// Marches forward through time, solving the
/// Ordinary Differential Equation that governs the heat transfer in walls.
///
///
/// The equation to solve is the following:
///
/// ```math
/// \overline{C}  \dot{T} - \overline{K}  T = q
/// ```
///
/// Where $`\overline{C}`$ and $`\overline{K}`$ are matrices representing the
/// thermal mass of each node and the thermal network, respectively; and where $`T`$ and $`q`$ are
/// vectors representing the Temperature and the heat "flow into" each node, respectively.
/// $`\overline{C}`$ and $`\overline{K}`$ are build based on the finite difference method.
///
/// This model uses a 4th order [Runga-Kutte](https://en.wikipedia.org/wiki/Runge%E2%80%93Kutta_methods) (a.k.a., RK4)
/// to march through time. In order to do this, it is convenient to write the equation to solve
/// as follows:
///
/// ```math
/// \dot{T}  = f(t, T)
/// ```
///
/// Where
/// ```math
/// f(t,T) = \overline{C}^{-1} \overline{K}  T + \overline{C}^{-1} q
/// ```
///
/// Then, the 4th order Runge-Kutta method allows marching forward through time as follows:
/// ```math
///  T_{i+1} = T_i + \frac{k_1 + 2k_2 + 2k_3 + k_4}{6}
/// ```
/// Where $`k_1`$, $`k_2`$, $`k_3`$ and $`k_4`$ can be calculated based on the
/// timestep $`\Delta t`$ as follows:
///
/// * $`k_1 = \Delta t \times f(t,T)`$
/// * $`k_2 = \Delta t \times f(t+\frac{\Delta t}{2}, T+\frac{k_1}{2})`$
/// * $`k_3 = \Delta t \times f(t+\frac{\Delta t}{2}, T+\frac{k_2}{2})`$
/// * $`k_4 = \Delta t \times f(t+\Delta t, T+k_3 )`$
pub fn rk4(memory: &mut ChunkMemory) -> Result<(), String> {
    #[cfg(debug_assertions)]
    {
        let (krows, kcols) = memory.k.size();
        assert_eq!(
            krows, kcols,
            "Expecting 'K' to be a squared matrix... nrows={}, ncols={}",
            krows, kcols
        );
        let crows = memory.c.len();
        assert_eq!(
            crows, krows,
            "Expecting 'c' to be to have {} rows because K has {} rows... found {}",
            krows, krows, crows
        );
        let qrows = memory.q.len();
        assert_eq!(
            qrows, krows,
            "Expecting 'q' to be to have {} rows because K has {} rows... found {}",
            krows, krows, qrows
        );
    }

    // k1 = 0
    // k1 = k*temps
    memory.k.column_prod_into(&memory.temps, &mut memory.k1)?;
    // k1 = k*temps + q --> f(t, T)
    add_assign(&mut memory.k1, &memory.q);

    // returning "temperatures + k1" is Euler... continuing is
    // Runge–Kutta 4th order
    /*
    memory.temps += &memory.k1;
    return Ok(());
    */

    // k2 = 0
    // aux = k1*0.5
    memory
        .aux
        .iter_mut()
        .zip(memory.k1.iter())
        .for_each(|(a, b)| *a = 0.5 * b);
    // aux = k1*0.5 + temps; --> we now need f(t, aux)
    add_assign(&mut memory.aux, &memory.temps);
    // k2 = k*aux = k * ( k1*0.5 + temps )
    memory.k.column_prod_into(&memory.aux, &mut memory.k2)?;
    // k2 = k*aux + q = k * ( k1*0.5 + temps ) + q
    add_assign(&mut memory.k2, &memory.q);

    // k3 = 0
    // aux = k2 / 2
    memory
        .aux
        .iter_mut()
        .zip(memory.k2.iter())
        .for_each(|(a, b)| *a = 0.5 * b);
    // aux = k2 / 2 + temps;
    add_assign(&mut memory.aux, &memory.temps);
    // k3 = k2*(k2 / 2 + temps)
    memory.k.column_prod_into(&memory.aux, &mut memory.k3)?;
    // k3 = k2*(k2 / 2 + temps) + q;
    add_assign(&mut memory.k3, &memory.q);

    // k4 = 0
    // aux = k3
    memory.aux.copy_from_slice(&memory.k3);
    // aux = k3 + temps;
    add_assign(&mut memory.aux, &memory.temps);
    // k4 = k*(k3 + temps);
    memory.k.column_prod_into(&memory.aux, &mut memory.k4)?;
    // k4 = k*(k3 + temps) + q;
    add_assign(&mut memory.k4, &memory.q);

    // Scale them and add them all up
    // k1 /= 6.;
    scale(&mut memory.k1, 1. / 6.);
    // k2 /= 3.;
    scale(&mut memory.k2, 1. / 3.);
    // k3 /= 3.;
    scale(&mut memory.k3, 1. / 3.);
    // k4 /= 6.;
    scale(&mut memory.k4, 1. / 6.);

    // Let's add it all and return
    // temps = k1/6 + k2/3 + k3/3 + k4/6
    add_assign(&mut memory.temps, &memory.k1);
    add_assign(&mut memory.temps, &memory.k2);
    add_assign(&mut memory.temps, &memory.k3);
    add_assign(&mut memory.temps, &memory.k4);

    Ok(())
}

/// This is a Surface from the point of view of our thermal solver.
/// Since this module only calculate heat transfer (and not short-wave solar
/// radiation, e.g., light), both model::Fenestration and model::Surface
/// are treated in the same way.
#[derive(Clone, Debug)]
pub struct ThermalSurfaceData<T: SurfaceTrait + Send + Sync> {
    /// A clone of the element in the [`Model`] which this struct represents
    pub parent: Arc<T>,

    /// The [`Discretization`] that represents this `ThermalSurfaceData`
    pub discretization: Discretization,

    /// The back boundary
    pub front_boundary: Boundary,

    /// The index of the space in front of this, if any
    pub front_space_index: Option<usize>,

    /// The back boundary
    pub back_boundary: Boundary,

    /// The index of the space at the back of this, if any
    pub back_space_index: Option<usize>,

    /// The thermal absorbtance on the front side (from 0 to 1)
    pub front_emissivity: Float,

    /// The thermal absorbtance on the back side (from 0 to 1)
    pub back_emissivity: Float,

    /// The area of the Surface
    pub area: Float,

    /// The perimeter of the surface
    pub perimeter: Float,

    /// The normal of the surface
    pub normal: Vector3D,

    /// The wind velocity changes with altitude. This field
    /// stores the factor with which the wind velocity of the weather
    /// file needs to be multiplied in order to estimate the wind speed
    /// at the exterior of the surface.
    pub wind_speed_modifier: Float,

    /// The cosine of the tilt angle (normal * Vector3D(0., 0., 1.))
    pub cos_tilt: Float,

    /// The chunks of nodes that have mass
    pub massive_chunks: Vec<(usize, usize)>,

    /// The chunks of nodes that have nomass
    pub nomass_chunks: Vec<(usize, usize)>,

    /// The absorbtances of each node in the system, proportional
    /// to the front incident radiation (i.e., they do not add up to 1.0)
    pub front_alphas: Matrix,

    /// The absorbtances of each node in the system, proportional
    /// to the back incident radiation (i.e., they do not add up to 1.0)
    pub back_alphas: Matrix,

    /// this allows setting a fixed convection
    /// coefficient
    pub front_hs: Option<Float>,

    /// this allows setting a fixed convection
    /// coefficient
    pub back_hs: Option<Float>,
}

impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
    /// Allocates memory for the simulation
    pub fn allocate_memory(&self) -> SurfaceMemory {
        let massive_chunks = self
            .massive_chunks
            .iter()
            .map(|(ini, fin)| ChunkMemory::new(*ini, *fin))
            .collect();

        let nomass_chunks = self
            .nomass_chunks
            .iter()
            .map(|(ini, fin)| ChunkMemory::new(*ini, *fin))
            .collect();

        let ini = self.parent.first_node_temperature_index();
        let fin = self.parent.last_node_temperature_index() + 1;
        let n_nodes = fin - ini;
        let temperatures = Matrix::new(0.0, n_nodes, 1);

        let solar_radiation = temperatures.clone();
        let solar_radiation_aux = temperatures.clone();

        SurfaceMemory {
            massive_chunks,
            nomass_chunks,
            temperatures,
            solar_radiation,
            solar_radiation_aux,
        }
    }

    /// Creates a new [`ThermalSurfaceData`]
    #[allow(clippy::too_many_arguments)]
    pub fn new(
        state: &mut SimulationStateHeader,
        model: &Model,
        site_details: &Option<SiteDetails>,
        ref_surface_index: usize,
        parent: &Arc<T>,
        area: Float,
        perimeter: Float,
        height: Float,
        normal: Vector3D,
        construction: &Arc<Construction>,
        discretization: Discretization,
    ) -> Result<ThermalSurfaceData<T>, String> {
        // Set Front and Back state
        parent.add_front_convection_state(state, ref_surface_index)?;
        parent.add_back_convection_state(state, ref_surface_index)?;

        parent.add_front_convective_heatflow_state(state, ref_surface_index)?;
        parent.add_back_convective_heatflow_state(state, ref_surface_index)?;

        parent.add_front_solar_irradiance_state(state, ref_surface_index)?;
        parent.add_back_solar_irradiance_state(state, ref_surface_index)?;

        parent.add_front_ir_irradiance_state(state, ref_surface_index)?;
        parent.add_back_ir_irradiance_state(state, ref_surface_index)?;

        // Add node data.
        let n_nodes = discretization.segments.len();
        parent.add_node_temperature_states(state, ref_surface_index, n_nodes)?;

        let front_substance = model.get_material_substance(&construction.materials[0])?;

        let back_substance = model
            .get_material_substance(construction.materials.last().ok_or("No last material")?)?;

        const DEFAULT_EM: Float = 0.84;
        let front_emissivity = match &front_substance {
            Substance::Normal(s) => {
                s.front_thermal_absorbtance_or(crate::heat_model::MODULE_NAME, DEFAULT_EM)
            }
            _ => panic!("Front Emissivity not available for this particular kind of Substance"),
        };
        let back_emissivity = match &&back_substance {
            Substance::Normal(s) => {
                s.back_thermal_absorbtance_or(crate::heat_model::MODULE_NAME, DEFAULT_EM)
            }
            _ => panic!("Front Emissivity not available for this particular kind of Substance"),
        };

        let (massive_chunks, nomass_chunks) = discretization.get_chunks();

        // Calculate solar absoption
        let front_glazing = Glazing::get_front_glazing_system(construction, model)?;
        let back_glazing = Glazing::get_back_glazing_system(construction, model)?;
        // These two are the absorbtion of each glazing layer. We need the absorption of each node
        let front_alphas_prev = Glazing::alphas(&front_glazing);

        if front_alphas_prev.len() != 1 && front_alphas_prev.len() != construction.materials.len() {
            eprintln!("Construction '{}' might to have a mixture of transparent and opaque layers. This is not currently supported.", construction.name());
        }
        let n_nodes = discretization.segments.len();
        let n_layers = construction.materials.len();

        let mut front_alphas = Matrix::new(0.0, n_nodes, 1);
        let mut global_i = 0;
        for (alpha_i, alpha) in front_alphas_prev.iter().enumerate() {
            let layer_index = 2 * alpha_i; // We need to skip cavities
            let n = if discretization.n_elements[layer_index] == 0 {
                1
            } else {
                discretization.n_elements[layer_index]
            };
            let substance = model.get_material_substance(&construction.materials[layer_index])?;
            if let Substance::Normal(sub) = &substance {
                let tau = *sub.solar_transmittance().unwrap_or(&0.0);
                if tau > 0.0 {
                    // Distribute across all the nodes
                    for local_i in 0..=n {
                        front_alphas.add_to_element(
                            global_i + local_i,
                            0,
                            *alpha / (n + 1) as Float,
                        )?;
                    }
                } else {
                    // Add only to the first node
                    front_alphas.add_to_element(global_i, 0, *alpha)?;
                }
            } else {
                unreachable!()
            }
            global_i += n + 1;
        }

        let back_alphas_prev = Glazing::alphas(&back_glazing);
        if back_alphas_prev.len() != 1 && back_alphas_prev.len() != construction.materials.len() {
            eprintln!("Construction '{}' might to have a mixture of transparent and opaque layers. This is not currently supported.", construction.name());
        }
        let mut back_alphas = Matrix::new(0.0, n_nodes, 1);
        let mut global_i = n_nodes;
        for (alpha_i, alpha) in back_alphas_prev.iter().enumerate() {
            let layer_index = n_layers - 2 * alpha_i - 1; // We need to skip cavities
            let n = if discretization.n_elements[layer_index] == 0 {
                1
            } else {
                discretization.n_elements[layer_index]
            };
            let substance = model.get_material_substance(&construction.materials[layer_index])?;
            if let Substance::Normal(sub) = substance {
                let tau = *sub.solar_transmittance().unwrap_or(&0.0);
                if tau > 0.0 {
                    // Distribute across all the nodes
                    for local_i in 0..=n {
                        let row = global_i - local_i - 1;
                        back_alphas.add_to_element(row, 0, *alpha / (n + 1) as Float)?;
                    }
                } else {
                    // Add only to the last node
                    back_alphas.add_to_element(global_i - 1, 0, *alpha)?;
                }
            } else {
                unreachable!()
            }
            global_i -= n + 1;
        }

        let cos_tilt = normal * Vector3D::new(0., 0., 1.);
        let wind_speed_modifier = match site_details {
            Some(d) => d.wind_speed_modifier(height),
            None => TerrainClass::default().wind_speed_modifier(height),
        };

        let parent = parent.clone();

        let front_hs = parent.fixed_front_hs();
        let back_hs = parent.fixed_back_hs();

        // Build resulting
        Ok(ThermalSurfaceData {
            parent,
            area,
            perimeter,
            normal,
            cos_tilt,
            discretization,
            front_boundary: Boundary::default(),
            back_boundary: Boundary::default(),
            front_space_index: None,
            back_space_index: None,
            front_emissivity,
            back_emissivity,
            wind_speed_modifier,
            front_alphas,
            back_alphas,
            massive_chunks,
            nomass_chunks,
            front_hs,
            back_hs,
        })
    }

    /// Sets the front boundary
    pub fn set_front_boundary(&mut self, b: Boundary, model: &Model) {
        self.front_boundary = b;
        if let Boundary::Space { space } = &self.front_boundary {
            for (i, s) in model.spaces.iter().enumerate() {
                if s.name() == space {
                    self.front_space_index = Some(i);
                    break;
                }
            }
        }
    }

    /// Sets the back boundary
    pub fn set_back_boundary(&mut self, b: Boundary, model: &Model) {
        self.back_boundary = b;
        if let Boundary::Space { space } = &self.back_boundary {
            for (i, s) in model.spaces.iter().enumerate() {
                if s.name() == space {
                    self.back_space_index = Some(i);
                    break;
                }
            }
        }
    }

    /// Calculates the border conditions
    pub fn calc_border_conditions(
        &self,
        state: &SimulationState,
        t_front: Float,
        t_back: Float,
        wind_direction: Float,
        wind_speed: Float,
    ) -> (ConvectionParams, ConvectionParams, Float, Float) {
        // Calculate and set Front and Back IR Irradiance
        let ir_front = self.parent.front_infrared_irradiance(state);
        let ir_back = self.parent.back_infrared_irradiance(state);

        let windward = is_windward(wind_direction, self.cos_tilt, self.normal);

        // TODO: There is something to do here if we are talking about windows
        let (front_env, mut front_hs) = match &self.front_boundary {
            Boundary::Adiabatic => {
                let front_env = ConvectionParams {
                    air_temperature: t_back,
                    air_speed: 0.0,
                    rad_temperature: t_back,
                    surface_temperature: self.parent.back_temperature(state),
                    roughness_index: 1,
                    cos_surface_tilt: self.cos_tilt,
                };

                let front_hs = match self.front_hs {
                    Some(v) => v,
                    None => front_env.get_tarp_natural_convection_coefficient(),
                };

                (front_env, front_hs)
            }
            Boundary::Space { .. } => {
                let front_env = ConvectionParams {
                    air_temperature: t_front,
                    air_speed: 0.0,
                    rad_temperature: t_front,
                    surface_temperature: self.parent.front_temperature(state),
                    roughness_index: 1,
                    cos_surface_tilt: self.cos_tilt,
                };

                let front_hs = match self.front_hs {
                    Some(v) => v,
                    None => front_env.get_tarp_natural_convection_coefficient(),
                };

                (front_env, front_hs)
            }
            Boundary::AmbientTemperature { temperature } => {
                let front_env = ConvectionParams {
                    air_temperature: *temperature,
                    air_speed: 0.0,
                    rad_temperature: *temperature,
                    surface_temperature: self.parent.front_temperature(state),
                    roughness_index: 1,
                    cos_surface_tilt: self.cos_tilt,
                };

                let front_hs = match self.front_hs {
                    Some(v) => v,
                    None => front_env.get_tarp_natural_convection_coefficient(),
                };

                (front_env, front_hs)
            }
            Boundary::Ground => unreachable!(),
            Boundary::Outdoor => {
                let mut front_env = ConvectionParams {
                    air_temperature: t_front,
                    air_speed: wind_speed * self.wind_speed_modifier,
                    rad_temperature: (ir_front / crate::SIGMA).powf(0.25) - 273.15,
                    surface_temperature: self.parent.front_temperature(state),
                    roughness_index: 1,
                    cos_surface_tilt: self.cos_tilt,
                };
                front_env.cos_surface_tilt = -self.cos_tilt;

                let front_hs = match self.front_hs {
                    Some(v) => v,
                    None => front_env.get_tarp_convection_coefficient(
                        self.area,
                        self.perimeter,
                        windward,
                    ),
                };

                (front_env, front_hs)
            }
        };

        let (back_env, mut back_hs) = match &self.back_boundary {
            Boundary::Adiabatic => {
                // Apply same boundary conditions
                (front_env, front_hs)
            }
            Boundary::Space { .. } => {
                let back_env = ConvectionParams {
                    air_temperature: t_back,
                    air_speed: 0.0,
                    rad_temperature: t_back, //self.parent.back_temperature(state),//(ir_back/crate::SIGMA).powf(0.25) - 273.15,
                    surface_temperature: self.parent.back_temperature(state),
                    roughness_index: 1,
                    cos_surface_tilt: self.cos_tilt,
                };
                let back_hs = match self.back_hs {
                    Some(v) => v,
                    None => back_env.get_tarp_natural_convection_coefficient(),
                };

                (back_env, back_hs)
            }
            Boundary::AmbientTemperature { temperature } => {
                let back_env = ConvectionParams {
                    air_temperature: *temperature,
                    air_speed: 0.0,
                    rad_temperature: *temperature,
                    surface_temperature: self.parent.back_temperature(state),
                    roughness_index: 1,
                    cos_surface_tilt: self.cos_tilt,
                };

                let back_hs = match self.back_hs {
                    Some(v) => v,
                    None => back_env.get_tarp_natural_convection_coefficient(),
                };

                (back_env, back_hs)
            }
            Boundary::Ground => unreachable!(),
            Boundary::Outdoor => {
                let surface_temperature = self.parent.back_temperature(state);
                let back_env = ConvectionParams {
                    air_temperature: t_back,
                    air_speed: wind_speed * self.wind_speed_modifier,
                    rad_temperature: (ir_back / crate::SIGMA).powf(0.25) - 273.15,
                    surface_temperature,
                    roughness_index: 1,
                    cos_surface_tilt: self.cos_tilt,
                };
                let back_hs = match self.back_hs {
                    Some(v) => v,
                    None => back_env.get_tarp_convection_coefficient(
                        self.area,
                        self.perimeter,
                        windward,
                    ),
                };

                (back_env, back_hs)
            }
        };

        // assert!(
        //     !front_hs.is_nan() && !back_hs.is_nan(),
        //     "Found NaN convection coefficients: Front={front_hs} | back={back_hs}"
        // );

        if front_hs.is_nan() && back_hs.is_nan() {
            front_hs = 2.0;
            back_hs = 2.0;
        } else if front_hs.is_nan() && !back_hs.is_nan() {
            front_hs = back_hs;
        } else if !front_hs.is_nan() && back_hs.is_nan() {
            back_hs = front_hs;
        }

        (front_env, back_env, front_hs, back_hs)
    }

    #[allow(clippy::too_many_arguments)]
    fn march_mass(
        &self,
        global_temperatures: &mut Matrix,
        solar_radiation: &Matrix,
        dt: Float,
        t_front: Float,
        t_back: Float,
        front_rad_hs: Float,
        back_rad_hs: Float,
        wind_direction: Float,
        wind_speed: Float,
        ini: usize,
        fin: usize,
        memory: &mut ChunkMemory,
        state: &SimulationState,
    ) -> Result<(), String> {
        let (front_env, back_env, front_hs, back_hs) =
            self.calc_border_conditions(state, t_front, t_back, wind_direction, wind_speed);

        self.discretization.get_k_q(
            ini,
            fin,
            global_temperatures,
            &front_env,
            front_hs,
            front_rad_hs,
            &back_env,
            back_hs,
            back_rad_hs,
            memory,
        )?;

        // Build Mass matrix
        memory.c.fill(0.0);
        for (i, (mass, ..)) in self
            .discretization
            .segments
            .iter()
            .skip(ini)
            .take(fin - ini)
            .enumerate()
        {
            memory.c[i] = *mass;
        }

        // ... here we add solar gains
        for (local_i, global_i) in (ini..fin).enumerate() {
            let v = solar_radiation.get(global_i, 0)?;
            memory.q[local_i] += v;
        }

        rearrange_k(dt, memory)?;

        // Use RT4 for updating temperatures of massive nodes.
        // let mut local_temps = Matrix::new(0.0, fin - ini, 1);
        for (local_i, global_i) in (ini..fin).enumerate() {
            let v = global_temperatures.get(global_i, 0)?;
            #[cfg(debug_assertions)]
            if v.is_nan() {
                dbg!(v);
            }
            memory.temps[local_i] = v;
        }

        rk4(memory)?;

        for (local_i, global_i) in (ini..fin).enumerate() {
            let v = memory.temps[local_i];
            #[cfg(debug_assertions)]
            if v.is_nan() {
                dbg!(v);
            }
            global_temperatures.set(global_i, 0, v)?;
        }
        Ok(())
    }

    /*
    /// This was meant an experimental alternative to the
    /// `march_nomass()` method in this same file...but it wasn't better than
    /// that.
    #[allow(dead_code)]
    #[allow(clippy::too_many_arguments)]
    fn march_nomass_newton_ralphson(
        &self,
        global_temperatures: &mut Matrix,
        solar_radiation: &Matrix,
        t_front: Float,
        t_back: Float,
        _front_rad_hs: Float,
        _back_rad_hs: Float,
        wind_direction: Float,
        wind_speed: Float,
        ini: usize,
        fin: usize,
        memory: &mut ChunkMemory,
        state: &SimulationState,
    ) -> Result<(), String> {
        let mut min_error = Float::MAX;
        let mut old_err = Float::MAX;

        let mut count = 0;
        let mut residuals = memory.q.clone();
        let (nrows, _) = residuals.size();
        let mut jacobian = memory.k.clone();

        for j in 0..nrows {
            let v = global_temperatures.get(j + ini, 0)?;
            memory.temps.set(j, 0, v)?;
        }
        // // initial guess
        // let (front_env, back_env, front_hs, back_hs) =
        //             self.calc_border_conditions(state, t_front, t_back, wind_direction, wind_speed);

        // self.discretization.get_k_q(
        //     ini,
        //     fin,
        //     global_temperatures,
        //     &front_env,
        //     front_hs,
        //     front_rad_hs,
        //     &back_env,
        //     back_hs,
        //     back_rad_hs,
        //     memory,
        // )?;

        // // add solar gains
        // for (local_i, i) in (ini..fin).enumerate() {
        //     let v = solar_radiation.get(i, 0)?;
        //     memory.q.add_to_element(local_i, 0, v)?;
        // }

        // memory.k.mut_n_diag_gaussian(&mut memory.q, 3)?;
        // memory.temps.copy_from(&memory.q);

        //     for (local_i, i) in (ini..fin).enumerate() {
        //         let local_temp = memory.temps.get(local_i, 0)?;
        //         global_temperatures.set(i, 0, local_temp)?;
        //         // global_temperatures.add_to_element(i, 0, local_temp)?;
        //         // global_temperatures.scale_element(i, 0, 0.5)?;
        //     }

        let calc_residual = move |memory: &mut ChunkMemory,
                                  residuals: &mut Matrix,
                                  global_temperatures: &Matrix|
              -> Result<Float, String> {
            // Update convection coefficients
            let (front_env, back_env, front_hs, back_hs) =
                self.calc_border_conditions(state, t_front, t_back, wind_direction, wind_speed);

            let front_rad_hs = 4.
                * self.front_emissivity
                * crate::SIGMA
                * (273.15 + (front_env.rad_temperature + front_env.surface_temperature) / 2.)
                    .powi(3);
            let back_rad_hs = 4.
                * self.back_emissivity
                * crate::SIGMA
                * (273.15 + (back_env.rad_temperature + back_env.surface_temperature) / 2.).powi(3);

            self.discretization.get_k_q(
                ini,
                fin,
                global_temperatures,
                &front_env,
                front_hs,
                front_rad_hs,
                &back_env,
                back_hs,
                back_rad_hs,
                memory,
            )?;

            // add solar gains
            for (local_i, i) in (ini..fin).enumerate() {
                let v = solar_radiation.get(i, 0)?;
                memory.q.add_to_element(local_i, 0, v)?;
            }
            memory.q *= -1.;

            memory.k.prod_into(&memory.temps, residuals).unwrap();
            *residuals -= &memory.q;

            let mut err = 0.0;
            for j in 0..nrows {
                let aux = residuals.get(j, 0).unwrap();
                err += aux;
            }
            err /= nrows as Float;

            // Ok(err.abs()/nrows as Floats)
            Ok(err)
        };

        loop {
            let err = calc_residual(memory, &mut residuals, global_temperatures)?;
            let prev_temps = memory.temps.clone();

            // if err > old_err {
            //     #[cfg(debug_assertions)]
            //     if count > 100 {
            //         eprintln!("Breaking after {} iterations... because BAD!", count);
            //     }
            //     break;
            // }

            if err.is_nan() {
                assert!(
                    !err.is_nan(),
                    // "Error is NaN... \nfront_env = {:?}| back_env = {:?} \nfront_hc = {} | back_hs = {}. \nError = {}\ntemps={}\nq={}\nsolar_front={}, solar_back={}\nfront_alphas={}\nback_alphas={}\n",
                    // front_env,
                    // back_env,
                    // front_hs,
                    // back_hs,
                    // err / ((fin - ini) as Float),
                    // temps,
                    // q,
                    // solar_front,
                    // solar_back,
                    // self.front_alphas,
                    // self.back_alphas,
                );
            }

            let prev_residuals = residuals.clone();
            // Calculate derivatives
            for j in 0..nrows {
                const DELTA: Float = 0.01;
                // increase
                memory.temps.add_to_element(j, 0, DELTA)?;
                // calculate change
                calc_residual(memory, &mut residuals, global_temperatures)?;

                for k in 0..nrows {
                    let delta_t = residuals.get(k, 0)? - prev_residuals.get(k, 0)?;
                    // jacobian.set(j, k, delta_t/DELTA)?;
                    jacobian.set(k, j, delta_t / DELTA)?;
                }
                // go back
                memory.temps.add_to_element(j, 0, -DELTA)?;
                calc_residual(memory, &mut residuals, global_temperatures)?;
            }
            // update guess.
            // let mut delta = memory.temps.clone();
            // jacobian.gauss_seidel(&prev_residuals, &mut delta, 9999, 0.001)?;
            let mut delta = prev_residuals;
            jacobian.mut_n_diag_gaussian(&mut delta, 3)?;
            // temps_clone *= 0.5;
            // delta *= 0.1;
            memory.temps -= &delta;

            let mut err = 0.0;
            for j in 0..nrows {
                let aux = memory.temps.get(j, 0).unwrap() - prev_temps.get(j, 0).unwrap();
                err += aux.abs();
            }
            err /= nrows as Float;

            let threshold = if count < 100 { 0.02 } else { 0.2 };
            if err.abs() < threshold {
                break;
            }

            if err.abs() < min_error {
                min_error = err.abs();
            }
            old_err = err;

            count += 1;
            if count > 600 {
                eprintln!("{}", &memory.temps);
                panic!(
                    "Too many iterations... did not converge... min_error is {}",
                    min_error
                );
            }
        }

        for (local_i, i) in (ini..fin).enumerate() {
            let local_temp = memory.temps.get(local_i, 0)?;
            global_temperatures.set(i, 0, local_temp)?;
            // global_temperatures.add_to_element(i, 0, local_temp)?;
            // global_temperatures.scale_element(i, 0, 0.5)?;
        }

        Ok(())
    }
    */

    #[allow(clippy::too_many_arguments)]
    fn march_nomass(
        &self,
        global_temperatures: &mut Matrix,
        solar_radiation: &Matrix,
        t_front: Float,
        t_back: Float,
        front_rad_hs: Float,
        back_rad_hs: Float,
        wind_direction: Float,
        wind_speed: Float,
        ini: usize,
        fin: usize,
        memory: &mut ChunkMemory,
        state: &SimulationState,
    ) -> Result<(), String> {
        let mut old_err = 99999.;
        let mut count = 0;

        let mut temp_k = memory.k.clone();
        let mut temps = memory.q.clone();

        loop {
            // Update convection coefficients
            let (front_env, back_env, front_hs, back_hs) =
                self.calc_border_conditions(state, t_front, t_back, wind_direction, wind_speed);

            // Calculate q based on heat transfer (convection, IR radiation)
            self.discretization.get_k_q(
                ini,
                fin,
                global_temperatures,
                &front_env,
                front_hs,
                front_rad_hs,
                &back_env,
                back_hs,
                back_rad_hs,
                memory,
            )?;

            // add solar gains
            for (local_i, i) in (ini..fin).enumerate() {
                let v = solar_radiation.get(i, 0)?;
                // memory.q.add_to_element(local_i, 0, v)?;
                memory.q[local_i] += v;
            }
            // memory.q *= -1.;
            scale(&mut memory.q, -1.);

            temp_k.copy_from(&memory.k);
            temps.copy_from_slice(&memory.q);

            // FIX THIS!
            temp_k.mut_gaussian(&mut temps)?; // and just like that, temps is the new temperatures

            let mut err = 0.0;
            for (local_i, i) in (ini..fin).enumerate() {
                let local_temp = temps[local_i];
                let global_temp = global_temperatures.get(i, 0)?;
                err += (local_temp - global_temp).abs();
            }
            err /= (fin - ini) as Float;
            if err > old_err {
                // #[cfg(debug_assertions)]
                if count > 100 {
                    eprintln!("Breaking after {} iterations... because BAD!", count);
                }
                break;
            }

            if err.is_nan() {
                assert!(
                    !err.is_nan(),
                    // "Error is NaN... \nfront_env = {:?}| back_env = {:?} \nfront_hc = {} | back_hs = {}. \nError = {}\ntemps={}\nq={}\nsolar_front={}, solar_back={}\nfront_alphas={}\nback_alphas={}\n",
                    // front_env,
                    // back_env,
                    // front_hs,
                    // back_hs,
                    // err / ((fin - ini) as Float),
                    // temps,
                    // q,
                    // solar_front,
                    // solar_back,
                    // self.front_alphas,
                    // self.back_alphas,
                );
            }

            // assert!(
            //     count < 900,
            //     "Excessive number of iterations... \n====\t\tfront_env = {:?}\n\tback_env = {:?}\n\tfront_hc = {}\n\tback_hs = {}.\n\tError = {}\n====\n",
            //     front_env,
            //     back_env,
            //     front_hs,
            //     back_hs,
            //     err / ((fin - ini) as Float),
            // );
            for (local_i, i) in (ini..fin).enumerate() {
                let local_temp = temps[local_i];
                // temperatures.set(i, 0, local_temp)?;
                global_temperatures.add_to_element(i, 0, local_temp)?;
                global_temperatures.scale_element(i, 0, 0.5)?;
            }

            let max_allowed_error = if count < 100 { 0.01 } else /*if count < 1000*/ { 0.5 }; // else { 1. };

            if err < max_allowed_error {
                // #[cfg(debug_assertions)]
                // eprintln!(
                //     "Breaking after {} iterations... because err = {}",
                //     count,
                //     err / ((fin - ini) as Float)
                // );
                break;
            }
            if count > 19000 {
                break; // Sometimes this converges too slowly.
            }
            old_err = err;
            count += 1;
        }
        Ok(())
    }

    /*
    /// This was meant an experimental alternative to the
    /// `march_nomass()` method in this same file...but it wasn't better than
    /// that.
    #[allow(dead_code)]
    #[allow(clippy::too_many_arguments)]
    fn march_nomass_virtual_mass(
        &self,
        global_temperatures: &mut Matrix,
        solar_radiation: &Matrix,
        t_front: Float,
        t_back: Float,
        front_rad_hs: Float,
        back_rad_hs: Float,
        wind_direction: Float,
        wind_speed: Float,
        ini: usize,
        fin: usize,
        memory: &mut ChunkMemory,
        state: &SimulationState,
    ) -> Result<(), String> {
        // Build Mass matrix
        let (n_nodes, _) = memory.temps.size();
        memory.c = Matrix::eye(n_nodes);
        // memory.c *= 300.;

        // Use RT4 for updating temperatures of massive nodes.
        // let mut local_temps = Matrix::new(0.0, fin - ini, 1);
        for (local_i, global_i) in (ini..fin).enumerate() {
            let v = global_temperatures.get(global_i, 0)?;
            memory.temps.set(local_i, 0, v)?;
        }

        let mut prev_temps = memory.temps.clone();
        const DT: Float = 0.0005;
        let mut count = 0;

        let (front_env, back_env, front_hs, back_hs) =
            self.calc_border_conditions(state, t_front, t_back, wind_direction, wind_speed);

        self.discretization.get_k_q(
            ini,
            fin,
            global_temperatures,
            &front_env,
            front_hs,
            front_rad_hs,
            &back_env,
            back_hs,
            back_rad_hs,
            memory,
        )?;
        // ... here we add solar gains
        for (local_i, global_i) in (ini..fin).enumerate() {
            let v = solar_radiation.get(global_i, 0)?;
            memory.q.add_to_element(local_i, 0, v)?;
        }

        rearrange_k(DT, memory)?;
        loop {
            // Updated temperatures
            rk4(memory)?;

            let mut delta = Float::MAX;
            for i in 0..n_nodes {
                let aux = (prev_temps.get(i, 0)? - memory.temps.get(i, 0)?).abs();
                if aux.is_nan() {
                    return Err(format!("Error is NaN after {} iterations", count));
                }
                if aux < delta {
                    delta = aux;
                }
            }
            prev_temps = memory.temps.clone();
            for (local_i, global_i) in (ini..fin).enumerate() {
                let v = memory.temps.get(local_i, 0)?;
                global_temperatures.set(global_i, 0, v)?;
            }
            if delta < 0.00001 {
                break;
            }
            count += 1;
            const MAX_ITER: usize = 20000;
            if count > MAX_ITER {
                return Err(format!("Error is {} after {} iterations", delta, MAX_ITER));
            }
        }

        // for (local_i, global_i) in (ini..fin).enumerate() {
        //     let v = memory.temps.get(local_i, 0)?;
        //     global_temperatures.set(global_i, 0, v)?;
        // }
        Ok(())
    }
    */

    /// Marches one timestep. Returns front and back heat flow
    #[allow(clippy::too_many_arguments)]
    pub fn march(
        &self,
        state: &SimulationState,
        t_front: Float,
        t_back: Float,
        wind_direction: Float,
        wind_speed: Float,
        dt: Float,
        memory: &mut SurfaceMemory,
    ) -> Result<(), String> {
        // Calculate and set Front and Back Solar Irradiance
        let mut solar_front = self.parent.front_solar_irradiance(state);
        if solar_front.is_nan() || solar_front < 0.0 {
            solar_front = 0.0;
        }
        let mut solar_back = self.parent.back_solar_irradiance(state);
        if solar_back.is_nan() || solar_back < 0.0 {
            solar_back = 0.0;
        }

        /////////////////////
        // 1st: Calculate the solar radiation absorbed by each node
        /////////////////////

        // let mut solar_radiation = &self.front_alphas * solar_front;
        // solar_radiation += &(&self.back_alphas * solar_back);
        self.front_alphas
            .scale_into(solar_front, &mut memory.solar_radiation)?;
        self.back_alphas
            .scale_into(solar_back, &mut memory.solar_radiation_aux)?;
        memory.solar_radiation += &memory.solar_radiation_aux;

        /////////////////////
        // 2nd: Calculate the temperature in all no-mass nodes.
        // Also, the heat flow into
        /////////////////////

        let (front_env, back_env, _front_hs, _back_hs) =
            self.calc_border_conditions(state, t_front, t_back, wind_direction, wind_speed);
        let front_rad_hs = 4.
            * self.front_emissivity
            * crate::SIGMA
            * (273.15 + (front_env.rad_temperature + front_env.surface_temperature) / 2.).powi(3);
        let back_rad_hs = 4.
            * self.back_emissivity
            * crate::SIGMA
            * (273.15 + (back_env.rad_temperature + back_env.surface_temperature) / 2.).powi(3);

        for (chunk_i, (ini, fin)) in self.nomass_chunks.iter().enumerate() {
            self.march_nomass(
                &mut memory.temperatures,
                &memory.solar_radiation,
                t_front,
                t_back,
                front_rad_hs,
                back_rad_hs,
                wind_direction,
                wind_speed,
                *ini,
                *fin,
                &mut memory.nomass_chunks[chunk_i],
                state,
            )?;
        }

        // Calculate final conditions.

        let (front_env, back_env, _front_hs, _back_hs) =
            self.calc_border_conditions(state, t_front, t_back, wind_direction, wind_speed);
        let front_rad_hs = 4.
            * self.front_emissivity
            * crate::SIGMA
            * (273.15 + (front_env.rad_temperature + front_env.surface_temperature) / 2.).powi(3);
        let back_rad_hs = 4.
            * self.back_emissivity
            * crate::SIGMA
            * (273.15 + (back_env.rad_temperature + back_env.surface_temperature) / 2.).powi(3);

        /////////////////////
        // 3rd: Calculate K and C matrices for the massive walls, and march
        /////////////////////

        for (chunk_i, (ini, fin)) in self.massive_chunks.iter().enumerate() {
            self.march_mass(
                &mut memory.temperatures,
                &memory.solar_radiation,
                dt,
                t_front,
                t_back,
                front_rad_hs,
                back_rad_hs,
                wind_direction,
                wind_speed,
                *ini,
                *fin,
                &mut memory.massive_chunks[chunk_i],
                state,
            )?;
        }
        Ok(())
    }
}

/// A [`ThermalSurfaceData`] whose parent is a [`Surface`]
pub type ThermalSurface = ThermalSurfaceData<Surface>;

/// A [`ThermalSurfaceData`] whose parent is a [`Fenestration`]
pub type ThermalFenestration = ThermalSurfaceData<Fenestration>;

/***********/
/* TESTING */
/***********/

