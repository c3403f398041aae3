// Generated by gen_registry.py.
/// The arguments that the functions of the library take, by name.
#[derive(Clone, Debug, Default)]
pub struct Env {
    pub number_of_links: u8,
    pub end_to_end_length: f64,
    pub force: f64,
    pub hinge_mass: f64,
    pub link_energy: f64,
    pub link_length: f64,
    pub link_stiffness: f64,
    pub nondimensional_end_to_end_length_per_link: f64,
    pub nondimensional_force: f64,
    pub nondimensional_link_energy: f64,
    pub nondimensional_link_stiffness: f64,
    pub nondimensional_persistance_length: f64,
    pub nondimensional_potential_distance: f64,
    pub nondimensional_potential_stiffness: f64,
    pub normalization_nondimensional_equilibrium_distribution: f64,
    pub persistance_length: f64,
    pub potential_distance: f64,
    pub potential_stiffness: f64,
    pub temperature: f64,
    pub well_width: f64,
}
impl Env {
    pub fn get(&self, n: &str) -> f64 {
        match n {
            "number_of_links" => self.number_of_links as f64,
            "end_to_end_length" => self.end_to_end_length,
            "force" => self.force,
            "hinge_mass" => self.hinge_mass,
            "link_energy" => self.link_energy,
            "link_length" => self.link_length,
            "link_stiffness" => self.link_stiffness,
            "nondimensional_end_to_end_length_per_link" => self.nondimensional_end_to_end_length_per_link,
            "nondimensional_force" => self.nondimensional_force,
            "nondimensional_link_energy" => self.nondimensional_link_energy,
            "nondimensional_link_stiffness" => self.nondimensional_link_stiffness,
            "nondimensional_persistance_length" => self.nondimensional_persistance_length,
            "nondimensional_potential_distance" => self.nondimensional_potential_distance,
            "nondimensional_potential_stiffness" => self.nondimensional_potential_stiffness,
            "normalization_nondimensional_equilibrium_distribution" => self.normalization_nondimensional_equilibrium_distribution,
            "persistance_length" => self.persistance_length,
            "potential_distance" => self.potential_distance,
            "potential_stiffness" => self.potential_stiffness,
            "temperature" => self.temperature,
            "well_width" => self.well_width,
            _ => panic!("no argument {}", n),
        }
    }
    pub fn set(&mut self, n: &str, v: f64) {
        match n {
            "number_of_links" => self.number_of_links = v as u8,
            "end_to_end_length" => self.end_to_end_length = v,
            "force" => self.force = v,
            "hinge_mass" => self.hinge_mass = v,
            "link_energy" => self.link_energy = v,
            "link_length" => self.link_length = v,
            "link_stiffness" => self.link_stiffness = v,
            "nondimensional_end_to_end_length_per_link" => self.nondimensional_end_to_end_length_per_link = v,
            "nondimensional_force" => self.nondimensional_force = v,
            "nondimensional_link_energy" => self.nondimensional_link_energy = v,
            "nondimensional_link_stiffness" => self.nondimensional_link_stiffness = v,
            "nondimensional_persistance_length" => self.nondimensional_persistance_length = v,
            "nondimensional_potential_distance" => self.nondimensional_potential_distance = v,
            "nondimensional_potential_stiffness" => self.nondimensional_potential_stiffness = v,
            "normalization_nondimensional_equilibrium_distribution" => self.normalization_nondimensional_equilibrium_distribution = v,
            "persistance_length" => self.persistance_length = v,
            "potential_distance" => self.potential_distance = v,
            "potential_stiffness" => self.potential_stiffness = v,
            "temperature" => self.temperature = v,
            "well_width" => self.well_width = v,
            _ => panic!("no argument {}", n),
        }
    }
}
