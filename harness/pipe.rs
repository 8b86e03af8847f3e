// Shared helpers to drive the comparison pipeline on small signals.
#[allow(dead_code)]
mod pipe {
    use super::api::*;
    use crate::analysis_window::AnalysisWindow;
    use crate::audio_signal::AudioSignal;
    use crate::patch_creator::PatchCreator;
    use crate::patch_similarity_comparator::PatchSimilarityResult;
    use crate::similarity_to_quality_mapper::SimilarityToQualityMapper;
    use crate::visqol_error::VisqolError;
    use ndarray::{s, Array2};

    /// a reference patch plan chosen by the harness
    pub struct Plan {
        pub at: Vec<usize>,
        pub len: usize,
    }
    impl PatchCreator for Plan {
        fn create_ref_patch_indices(&self, _: &Array2<f64>, _: &AudioSignal, _: &AnalysisWindow) -> Result<Vec<usize>, VisqolError> {
            Ok(self.at.clone())
        }
        fn create_patches_from_indices(&self, sp: &Array2<f64>, at: &[usize]) -> Vec<Array2<f64>> {
            at.iter().map(|&i| sp.slice(s![.., i..i + self.len]).to_owned()).collect()
        }
    }
    /// a mapper that returns a fixed (symbolic) score
    pub struct Fixed(pub f64);
    impl SimilarityToQualityMapper for Fixed {
        fn predict_quality(&self, _: &[f64]) -> f64 { self.0 }
    }
    /// a deterministic test signal
    pub fn tone(n: usize, seed: u64) -> Vec<f64> {
        let mut s = seed * 2654435761 + 12345;
        (0..n)
            .map(|_| {
                s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                ((s >> 33) % 2001) as f64 / 1000.0 - 1.0
            })
            .collect()
    }
    /// an arbitrary patch similarity
    pub fn result(name: &str, bands: usize, lo: f64, hi: f64) -> PatchSimilarityResult {
        let m = fs(&[name, ".mean"].concat(), bands, lo, hi);
        let d = fs(&[name, ".std"].concat(), bands, 0.0, 1.0);
        let e = fs(&[name, ".energy"].concat(), bands, 0.0, 50.0);
        let s = f(&[name, ".sim"].concat(), lo, hi);
        PatchSimilarityResult::new(m, d, e, s)
    }
}
