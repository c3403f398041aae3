------------------------------ MODULE Catalog ------------------------------
(***************************************************************************)
(* The single-chain models of the library: which polymer model (fam),      *)
(* which approximation of it (var), which ensemble (ens), and whether the  *)
(* thermodynamics of that ensemble is obtained by a Legendre               *)
(* transformation of the other one (leg).                                  *)
(*   ens: "T" isotensional (the force is controlled),                      *)
(*        "M" isometric (the end-to-end length is controlled),             *)
(*        "C" modified canonical (one end is held by a harmonic potential) *)
(***************************************************************************)
EXTENDS Sequences, Integers

CatalogRows == <<
    [path |-> "efjc/thermodynamics/isometric/asymptotic/alternative/legendre",
       fam |-> "efjc", var |-> "alternative", ens |-> "M", leg |-> TRUE],
    [path |-> "efjc/thermodynamics/isometric/asymptotic/legendre",
       fam |-> "efjc", var |-> "asymptotic", ens |-> "M", leg |-> TRUE],
    [path |-> "efjc/thermodynamics/isometric/asymptotic/reduced/legendre",
       fam |-> "efjc", var |-> "reduced", ens |-> "M", leg |-> TRUE],
    [path |-> "efjc/thermodynamics/isotensional",
       fam |-> "efjc", var |-> "exact", ens |-> "T", leg |-> FALSE],
    [path |-> "efjc/thermodynamics/isotensional/asymptotic",
       fam |-> "efjc", var |-> "asymptotic", ens |-> "T", leg |-> FALSE],
    [path |-> "efjc/thermodynamics/isotensional/asymptotic/alternative",
       fam |-> "efjc", var |-> "alternative", ens |-> "T", leg |-> FALSE],
    [path |-> "efjc/thermodynamics/isotensional/asymptotic/alternative/legendre",
       fam |-> "efjc", var |-> "alternative", ens |-> "T", leg |-> TRUE],
    [path |-> "efjc/thermodynamics/isotensional/asymptotic/legendre",
       fam |-> "efjc", var |-> "asymptotic", ens |-> "T", leg |-> TRUE],
    [path |-> "efjc/thermodynamics/isotensional/asymptotic/reduced",
       fam |-> "efjc", var |-> "reduced", ens |-> "T", leg |-> FALSE],
    [path |-> "efjc/thermodynamics/isotensional/asymptotic/reduced/legendre",
       fam |-> "efjc", var |-> "reduced", ens |-> "T", leg |-> TRUE],
    [path |-> "efjc/thermodynamics/isotensional/legendre",
       fam |-> "efjc", var |-> "exact", ens |-> "T", leg |-> TRUE],
    [path |-> "fjc/thermodynamics/isometric",
       fam |-> "fjc", var |-> "exact", ens |-> "M", leg |-> FALSE],
    [path |-> "fjc/thermodynamics/isometric/legendre",
       fam |-> "fjc", var |-> "exact", ens |-> "M", leg |-> TRUE],
    [path |-> "fjc/thermodynamics/isotensional",
       fam |-> "fjc", var |-> "exact", ens |-> "T", leg |-> FALSE],
    [path |-> "fjc/thermodynamics/isotensional/legendre",
       fam |-> "fjc", var |-> "exact", ens |-> "T", leg |-> TRUE],
    [path |-> "fjc/thermodynamics/modified_canonical",
       fam |-> "fjc", var |-> "exact", ens |-> "C", leg |-> FALSE],
    [path |-> "fjc/thermodynamics/modified_canonical/asymptotic/strong_potential",
       fam |-> "fjc", var |-> "strong_potential", ens |-> "C", leg |-> FALSE],
    [path |-> "fjc/thermodynamics/modified_canonical/asymptotic/weak_potential",
       fam |-> "fjc", var |-> "weak_potential", ens |-> "C", leg |-> FALSE],
    [path |-> "ideal/thermodynamics/isometric",
       fam |-> "ideal", var |-> "exact", ens |-> "M", leg |-> FALSE],
    [path |-> "ideal/thermodynamics/isotensional",
       fam |-> "ideal", var |-> "exact", ens |-> "T", leg |-> FALSE],
    [path |-> "swfjc/thermodynamics/isometric/legendre",
       fam |-> "swfjc", var |-> "exact", ens |-> "M", leg |-> TRUE],
    [path |-> "swfjc/thermodynamics/isotensional",
       fam |-> "swfjc", var |-> "exact", ens |-> "T", leg |-> FALSE],
    [path |-> "swfjc/thermodynamics/isotensional/legendre",
       fam |-> "swfjc", var |-> "exact", ens |-> "T", leg |-> TRUE],
    [path |-> "ufjc/lennard_jones/thermodynamics/isometric/asymptotic/legendre",
       fam |-> "lennard_jones", var |-> "asymptotic", ens |-> "M", leg |-> TRUE],
    [path |-> "ufjc/lennard_jones/thermodynamics/isometric/asymptotic/reduced/legendre",
       fam |-> "lennard_jones", var |-> "reduced", ens |-> "M", leg |-> TRUE],
    [path |-> "ufjc/lennard_jones/thermodynamics/isotensional",
       fam |-> "lennard_jones", var |-> "exact", ens |-> "T", leg |-> FALSE],
    [path |-> "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic",
       fam |-> "lennard_jones", var |-> "asymptotic", ens |-> "T", leg |-> FALSE],
    [path |-> "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/legendre",
       fam |-> "lennard_jones", var |-> "asymptotic", ens |-> "T", leg |-> TRUE],
    [path |-> "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced",
       fam |-> "lennard_jones", var |-> "reduced", ens |-> "T", leg |-> FALSE],
    [path |-> "ufjc/lennard_jones/thermodynamics/isotensional/asymptotic/reduced/legendre",
       fam |-> "lennard_jones", var |-> "reduced", ens |-> "T", leg |-> TRUE],
    [path |-> "ufjc/lennard_jones/thermodynamics/isotensional/legendre",
       fam |-> "lennard_jones", var |-> "exact", ens |-> "T", leg |-> TRUE],
    [path |-> "ufjc/log_squared/thermodynamics/isometric/asymptotic/legendre",
       fam |-> "log_squared", var |-> "asymptotic", ens |-> "M", leg |-> TRUE],
    [path |-> "ufjc/log_squared/thermodynamics/isometric/asymptotic/reduced/legendre",
       fam |-> "log_squared", var |-> "reduced", ens |-> "M", leg |-> TRUE],
    [path |-> "ufjc/log_squared/thermodynamics/isotensional",
       fam |-> "log_squared", var |-> "exact", ens |-> "T", leg |-> FALSE],
    [path |-> "ufjc/log_squared/thermodynamics/isotensional/asymptotic",
       fam |-> "log_squared", var |-> "asymptotic", ens |-> "T", leg |-> FALSE],
    [path |-> "ufjc/log_squared/thermodynamics/isotensional/asymptotic/legendre",
       fam |-> "log_squared", var |-> "asymptotic", ens |-> "T", leg |-> TRUE],
    [path |-> "ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced",
       fam |-> "log_squared", var |-> "reduced", ens |-> "T", leg |-> FALSE],
    [path |-> "ufjc/log_squared/thermodynamics/isotensional/asymptotic/reduced/legendre",
       fam |-> "log_squared", var |-> "reduced", ens |-> "T", leg |-> TRUE],
    [path |-> "ufjc/log_squared/thermodynamics/isotensional/legendre",
       fam |-> "log_squared", var |-> "exact", ens |-> "T", leg |-> TRUE],
    [path |-> "ufjc/morse/thermodynamics/isometric/asymptotic/legendre",
       fam |-> "morse", var |-> "asymptotic", ens |-> "M", leg |-> TRUE],
    [path |-> "ufjc/morse/thermodynamics/isometric/asymptotic/reduced/legendre",
       fam |-> "morse", var |-> "reduced", ens |-> "M", leg |-> TRUE],
    [path |-> "ufjc/morse/thermodynamics/isotensional",
       fam |-> "morse", var |-> "exact", ens |-> "T", leg |-> FALSE],
    [path |-> "ufjc/morse/thermodynamics/isotensional/asymptotic",
       fam |-> "morse", var |-> "asymptotic", ens |-> "T", leg |-> FALSE],
    [path |-> "ufjc/morse/thermodynamics/isotensional/asymptotic/legendre",
       fam |-> "morse", var |-> "asymptotic", ens |-> "T", leg |-> TRUE],
    [path |-> "ufjc/morse/thermodynamics/isotensional/asymptotic/reduced",
       fam |-> "morse", var |-> "reduced", ens |-> "T", leg |-> FALSE],
    [path |-> "ufjc/morse/thermodynamics/isotensional/asymptotic/reduced/legendre",
       fam |-> "morse", var |-> "reduced", ens |-> "T", leg |-> TRUE],
    [path |-> "ufjc/morse/thermodynamics/isotensional/legendre",
       fam |-> "morse", var |-> "exact", ens |-> "T", leg |-> TRUE],
    [path |-> "wlc/thermodynamics/isometric",
       fam |-> "wlc", var |-> "exact", ens |-> "M", leg |-> FALSE],
    [path |-> "wlc/thermodynamics/isometric/legendre",
       fam |-> "wlc", var |-> "exact", ens |-> "M", leg |-> TRUE],
    [path |-> "wlc/thermodynamics/isotensional",
       fam |-> "wlc", var |-> "exact", ens |-> "T", leg |-> FALSE],
    [path |-> "wlc/thermodynamics/isotensional/legendre",
       fam |-> "wlc", var |-> "exact", ens |-> "T", leg |-> TRUE]
  >>
CatalogPaths == {CatalogRows[i].path : i \in 1..Len(CatalogRows)}
RowOf(path) == CatalogRows[CHOOSE i \in 1..Len(CatalogRows) : CatalogRows[i].path = path]
=============================================================================
