use crate::traits::Numberish;
use crate::Float;
use serde::{Deserialize, Serialize};

#[cfg(feature = "parallel")]
use rayon::prelude::*;

/// The main Structure in this library
#[derive(Default, Debug, Clone, Serialize, Deserialize)]
pub struct GenericMatrix<T: Numberish> {
    pub(crate) ncols: usize,
    pub(crate) nrows: usize,

    // Contains the data ordered by row,
    // Going left to right, and up and down.
    pub(crate) data: Vec<T>,
}

impl<T: Numberish> std::fmt::Display for GenericMatrix<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        for i in 0..self.nrows {
            write!(f, "\n\t")?;
            for j in 0..self.ncols {
                write!(f, "{}, ", self.get(i, j).unwrap())?;
            }
        }
        Ok(())
    }
}

impl<T: Numberish> GenericMatrix<T> {
    /// Creates a `GenericMatrix` from a vector containing the elements of the matrix
    #[must_use]
    pub fn from_data(nrows: usize, ncols: usize, data: Vec<T>) -> Self {
        if nrows * ncols != data.len() {
            panic!("When creating Matrix: Number of rows (nrows = {}) and cols (ncols = {}) does not match length of data (data.len() = {})... (nrows * ncols = {})", nrows, ncols, data.len(), nrows*ncols)
        }
        // return
        Self { nrows, ncols, data }
    }

    /// Creates a `GenericMatrix` of `nrows` and `ncols` full of values `v`
    #[must_use]
    pub fn new(v: T, nrows: usize, ncols: usize) -> Self {
        Self {
            nrows,
            ncols,
            data: vec![v; nrows * ncols],
        }
    }

    /// Creates a squared matrix with the elements of `data`
    /// in the diagonal
    #[must_use]
    pub fn diag(data: Vec<T>) -> Self {
        let n_rows = data.len();
        let n_elements = n_rows * n_rows;
        let mut v = vec![T::zero(); n_elements];

        for (nrow, value) in data.iter().enumerate() {
            let i = nrow * (n_rows + 1);
            // v[i] = data[nrow];
            v[i] = *value;
        }

        GenericMatrix::from_data(n_rows, n_rows, v)
    }

    /// Creates an Identity matrix of size NxN
    #[must_use]
    pub fn eye(n: usize) -> Self {
        GenericMatrix {
            nrows: n,
            ncols: n,
            data: (0..(n * n))
                .map(|i| {
                    let col = i % n;
                    let row = (i - col) / n;
                    if row == col {
                        T::one()
                    } else {
                        T::zero()
                    }
                })
                .collect(),
        }
    }

    /// Creates an empty Matrix (i.e., size 0x0)
    #[must_use]
    pub fn empty() -> Self {
        GenericMatrix {
            nrows: 0,
            ncols: 0,
            data: Vec::with_capacity(0),
        }
    }

    /// Checks whether a Matrix has Zero columns and Zero rows
    #[must_use]
    pub fn is_empty(&self) -> bool {
        self.nrows == 0 && self.ncols == 0
    }

    /// Borrows the data as a slice
    pub fn as_slice(&self) -> &[T] {
        &self.data
    }

    /// Copies the data from a `GenericMatrix` into `self`.
    ///
    /// # Panics
    /// Panics if the matrices are of different sizes
    pub fn copy_from(&mut self, other: &GenericMatrix<T>) {
        assert_eq!(self.nrows, other.nrows);
        assert_eq!(self.ncols, other.ncols);
        self.data.copy_from_slice(&other.data)
    }

    /// Returns a tuple with number of rows and columns
    pub fn size(&self) -> (usize, usize) {
        (self.nrows, self.ncols)
    }

    /// Gets the index of an element within the `data` array of the Matrix
    pub(crate) fn index(&self, nrow: usize, ncol: usize) -> usize {
        self.ncols * nrow + ncol
    }

    /// Gets an element from the matrix
    pub fn get(&self, nrow: usize, ncol: usize) -> Result<T, String> {
        if nrow < self.nrows && ncol < self.ncols {
            let i: usize = self.index(nrow, ncol);
            Ok(self.data[i])
        } else {
            Err("Row or Column out of bounds.".to_string())
        }
    }

    /// Sets an element into the matrix
    pub fn set(&mut self, nrow: usize, ncol: usize, v: T) -> Result<T, String> {
        if nrow < self.nrows && ncol < self.ncols {
            let mut i: usize = self.ncols * nrow;
            i += ncol;
            self.data[i] = v;
            Ok(v)
        } else {
            Err("Row or Column out of bounds".to_string())
        }
    }

    /// Adds `v` to the element in position `nrow,ncol`.
    pub fn add_to_element(&mut self, nrow: usize, ncol: usize, v: T) -> Result<(), String> {
        if nrow < self.nrows && ncol < self.ncols {
            let i: usize = self.index(nrow, ncol);
            self.data[i] += v;
            Ok(())
        } else {
            Err("Row or Column out of bounds.".to_string())
        }
    }

    /// Multiplies the element in position `nrow,ncol` by `v`.
    pub fn scale_element(&mut self, nrow: usize, ncol: usize, v: T) -> Result<(), String> {
        if nrow < self.nrows && ncol < self.ncols {
            let i: usize = self.index(nrow, ncol);
            self.data[i] *= v;
            Ok(())
        } else {
            Err("Row or Column out of bounds.".to_string())
        }
    }

    /* ARITHMETIC OPERATION */

    /// Adds `self` with `other`, puting the result in `into`
    pub fn add_into(
        &self,
        other: &GenericMatrix<T>,
        into: &mut GenericMatrix<T>,
    ) -> Result<(), String> {
        if self.ncols != other.ncols || self.nrows != other.nrows {
            return Err("Matrices being added are of different sizes".to_string());
        }

        // Benchmarks showed that making this parallel was not worth
        // it unless the matrices were very big.
        std::iter::zip(
            std::iter::zip(self.data.iter(), other.data.iter()),
            into.data.iter_mut(),
        )
        .for_each(|((x, y), res)| *res = *x + *y);

        // return
        Ok(())
    }

    /// Substracts `other` from `self`, puting the result in `into`
    pub fn sub_into(
        &self,
        other: &GenericMatrix<T>,
        into: &mut GenericMatrix<T>,
    ) -> Result<(), String> {
        if self.ncols != other.ncols || self.nrows != other.nrows {
            return Err("Matrices being substracted are not the same size".to_string());
        }

        // Benchmarks showed that making this parallel was not worth
        // it unless the matrices were very big.
        std::iter::zip(
            std::iter::zip(self.data.iter(), other.data.iter()),
            into.data.iter_mut(),
        )
        .for_each(|((x, y), res)| *res = *x - *y);

        Ok(())
    }

    /// Scales a matrix by `s` and puts the result in `into`
    pub fn scale_into(&self, s: Float, into: &mut GenericMatrix<T>) -> Result<(), String> {
        if self.ncols != into.ncols || self.nrows != into.nrows {
            return Err("Result matrix when scaling is not of appropriate size".to_string());
        }

        std::iter::zip(into.data.iter_mut(), self.data.iter())
            .for_each(|(to, from)| *to = *from * s);

        Ok(())
    }

    /// Multiplies a matrix by `other`, putting the result into `into`
    #[allow(clippy::needless_collect)]
    pub fn prod_into(
        &self,
        other: &GenericMatrix<T>,
        into: &mut GenericMatrix<T>,
    ) -> Result<(), String> {
        if self.ncols != other.nrows {
            return Err("Size mismatch for GenericMatrix multiplication".to_string());
        }

        if into.nrows != self.nrows || into.ncols != other.ncols {
            return Err(
                "Result matrix size mismatch for GenericMatrix n-diag multiplication".to_string(),
            );
        }

        // Clear
        *into *= T::zero();

        // Multiply.
        let self_rows: Vec<&[T]> = self.data.chunks_exact(self.ncols).collect();
        #[cfg(not(feature = "parallel"))]
        let self_rows = self_rows
            .into_iter()
            .zip(into.data.chunks_exact_mut(other.ncols));
        #[cfg(feature = "parallel")]
        let self_rows = self_rows
            .into_par_iter()
            .zip(into.data.par_chunks_exact_mut(other.ncols));

        self_rows.for_each(|(row_data, into_data)| {
            for (col, item) in into_data.iter_mut().enumerate().take(other.ncols) {
                let coldata = other.data.iter().skip(col).step_by(other.ncols);
                let row_data = row_data.iter();
                let aux = row_data
                    .zip(coldata)
                    .map(|(a, b)| *a * *b)
                    .fold(T::zero(), |acc, val| acc + val);
                *item = aux;
            }
        });

        // return
        Ok(())
    }

    /// Multiplies a tri-diagonal matrix `self` by another matrix `other`, puting the results into `into`. When matrices are large
    /// this can be much faster than just multiplying, as we acknowledge that most of the Matrix
    /// will be Zeroes.
    pub fn prod_tri_diag_into(
        &self,
        other: &GenericMatrix<T>,
        into: &mut GenericMatrix<T>,
    ) -> Result<(), String> {
        self.prod_n_diag_into(other, 3, into)
    }

    /// Multiplies an `n`-diagonal matrix `self` by another matrix `other`. When matrices are large
    /// this can be much faster than just multiplying, as we acknowledge that most of the Matrix
    /// will be Zeroes.
    pub fn prod_n_diag_into(
        &self,
        other: &GenericMatrix<T>,
        n: usize,
        into: &mut GenericMatrix<T>,
    ) -> Result<(), String> {
        if self.ncols != other.nrows {
            return Err("Size mismatch for GenericMatrix n-diag multiplication".to_string());
        }

        if into.nrows != self.nrows || into.ncols != other.ncols {
            return Err(
                "Result matrix size mismatch for GenericMatrix n-diag multiplication".to_string(),
            );
        }

        // Clear
        *into *= T::zero();

        // Multiply.
        let i = self.data.chunks_exact(self.ncols);
        let i = i.into_iter().zip(into.data.chunks_exact_mut(other.ncols));

        let one_sided_n = one_sided_n!(n);
        i.enumerate().for_each(|(diag_i, (row_data, into_data))| {
            // for c in 0..other.ncols {
            for (c, item) in into_data.iter_mut().enumerate().take(other.ncols) {
                // dbg!(diag_i, c);
                let ini = if diag_i >= one_sided_n {
                    diag_i - one_sided_n
                } else {
                    0
                };
                let fin = if diag_i + one_sided_n + 1 > self.ncols {
                    self.ncols
                } else {
                    diag_i + one_sided_n + 1
                };

                for (i, a) in row_data.iter().enumerate().take(fin).skip(ini) {
                    let other_i = other.index(i, c);
                    let b = other.data[other_i];
                    *item += *a * b;
                }
            }
        });

        // return
        Ok(())
    } // end of function

    /// Multiplies an `n`-diagonal matrix `self` by another `other` and returns an `Result<Matrix>`
    pub fn from_prod_n_diag(
        &self,
        other: &GenericMatrix<T>,
        n: usize,
    ) -> Result<GenericMatrix<T>, String> {
        // Initialize matrix full of zeroes
        let mut ret: GenericMatrix<T> = GenericMatrix::new(T::zero(), self.nrows, other.ncols);
        self.prod_n_diag_into(other, n, &mut ret)?;
        Ok(ret)
    }

    /// Checks if two matrices are exactly the same (as in `element == other_element`... beware Floats).
    pub fn compare(&self, other: &GenericMatrix<T>) -> bool {
        if self.ncols != other.ncols {
            return false;
        }
        if self.nrows != other.nrows {
            return false;
        }
        for i in 0..self.data.len() {
            if self.data[i] != other.data[i] {
                return false;
            }
        }
        // return
        true
    }

    /// Concatenates the rows in `other` below the rows of `self`
    pub fn concat_rows(&mut self, other: &GenericMatrix<T>) -> Result<(), String> {
        let (other_rows, other_cols) = other.size();
        if self.ncols != other_cols {
            return Err(
                "Mismatch in the rows of `self` and `other` when concatenating rows".to_string(),
            );
        }
        // Resize self
        let len_self = self.data.len();
        let len_other = other.data.len();
        let final_length = len_self + len_other;
        self.nrows += other_rows;
        self.data.resize(final_length, T::zero());

        // Copy values
        self.data[len_self..final_length].copy_from_slice(&other.data);

        Ok(())
    }
}

impl<T: Numberish> std::ops::Add<&GenericMatrix<T>> for &GenericMatrix<T> {
    type Output = GenericMatrix<T>;

    fn add(self, other: &GenericMatrix<T>) -> Self::Output {
        if self.ncols != other.ncols || self.nrows != other.nrows {
            panic!("Matrices being added are of different sizes");
        }

        GenericMatrix {
            nrows: self.nrows,
            ncols: self.ncols,
            data: self
                .data
                .iter()
                .zip(&other.data)
                .map(|(x, y)| *x + *y)
                .collect(),
        }
    }
}

impl<T: Numberish> std::ops::AddAssign<&GenericMatrix<T>> for GenericMatrix<T> {
    fn add_assign(&mut self, other: &GenericMatrix<T>) {
        if self.ncols != other.ncols || self.nrows != other.nrows {
            panic!("Matrices being added are of different sizes");
        }

        self.data
            .iter_mut()
            .zip(&other.data)
            .for_each(|(a, b)| *a += *b);
    }
}

impl<T: Numberish> std::ops::Sub<&GenericMatrix<T>> for &GenericMatrix<T> {
    type Output = GenericMatrix<T>;

    fn sub(self, other: &GenericMatrix<T>) -> Self::Output {
        if self.ncols != other.ncols || self.nrows != other.nrows {
            panic!("Matrices being added are of different sizes");
        }
        GenericMatrix {
            nrows: self.nrows,
            ncols: self.ncols,
            data: self
                .data
                .iter()
                .zip(&other.data)
                .map(|(x, y)| *x - *y)
                .collect(),
        }
    }
}

impl<T: Numberish> std::ops::SubAssign<&GenericMatrix<T>> for GenericMatrix<T> {
    fn sub_assign(&mut self, other: &GenericMatrix<T>) {
        if self.ncols != other.ncols || self.nrows != other.nrows {
            panic!("Matrices being substracted are of different sizes");
        }

        self.data
            .iter_mut()
            .zip(&other.data)
            .for_each(|(a, b)| *a -= *b);
    }
}

impl<T: Numberish> std::ops::Mul<T> for &GenericMatrix<T> {
    type Output = GenericMatrix<T>;

    fn mul(self, s: T) -> Self::Output {
        GenericMatrix {
            nrows: self.nrows,
            ncols: self.ncols,
            data: self.data.iter().map(|a| *a * s).collect(),
        }
    }
}

impl<T: Numberish> std::ops::Mul<&GenericMatrix<T>> for &GenericMatrix<T> {
    type Output = GenericMatrix<T>;
    fn mul(self, other: &GenericMatrix<T>) -> Self::Output {
        let mut ret = GenericMatrix::new(T::zero(), self.nrows, other.ncols);
        self.prod_into(other, &mut ret).unwrap();
        ret
    }
}

impl<T: Numberish> std::ops::MulAssign<T> for GenericMatrix<T> {
    fn mul_assign(&mut self, s: T) {
        self.data.iter_mut().for_each(|a| *a *= s);
    }
}

impl<T: Numberish> std::ops::Div<T> for &GenericMatrix<T> {
    type Output = GenericMatrix<T>;
    fn div(self, s: T) -> Self::Output {
        GenericMatrix {
            nrows: self.nrows,
            ncols: self.ncols,
            data: self.data.iter().map(|a| *a / s).collect(),
        }
    }
}

impl<T: Numberish> std::ops::DivAssign<T> for GenericMatrix<T> {
    fn div_assign(&mut self, s: T) {
        self.data.iter_mut().for_each(|a| *a /= s);
    }
}

