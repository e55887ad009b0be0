entries! {
    h_probe => c15::probe();
    c15_arch1 => c15::alone(0);
    c15_arch2 => c15::archetypes(2, 1, 0);
    c15_arch3 => c15::archetypes(3, 0, 1);
    c15_arch3_full => c15::archetypes(3, 0, 0);
    c15_arch4 => c15::archetypes(4, 0, 2);
    c15_comp1 => c15::alone(1);
    c15_comp2 => c15::components(2, 1, 0);
    c15_comp3 => c15::components(3, 0, 1);
    c15_comp3_full => c15::components(3, 0, 0);
    c15_comp4 => c15::components(4, 0, 2);
    c15_both => c15::both(false);
    c15_both_full => c15::both(true);

    c05_one2 => c05::one(2, 3, false, true);
    c05_one2_loose => c05::one(2, 3, false, false);
    c05_one3 => c05::one(3, 3, false, true);
    c05_one2_wide => c05::one(2, 4, true, true);
    c05_two3 => c05::several(6, 2, 5, true);
    c05_two3_loose => c05::several(6, 2, 5, false);
    c05_three3 => c05::several(3, 3, 1, true);
    c05_three3_loose => c05::several(3, 3, 1, false);
    c05_three6 => c05::several(6, 3, 5, true);

    c16_arch3 => c16::archetypes(3, false);
    c16_comp3 => c16::components(3, false);
    c16_arch3_more => c16::archetypes(3, true);
    c16_comp3_more => c16::components(3, true);
    c16_mixed2 => c16::mixed(3);
    c16_mixed3 => c16::mixed(0);
    c16_mixed4 => c16::mixed(1);
    c16_params1 => c16::params(1, 5, 2, true);
    c16_params2 => c16::params(2, 5, 0, false);
    c16_params2_more => c16::params(2, 5, 1, true);
    c16_params3 => c16::params(3, 1, 0, false);
    c16_params3_more => c16::params(3, 1, 1, true);
    c16_both2 => c16::both(3);
    c16_both3 => c16::both(0);

    c18_worlds => c18::worlds(2, 2);
    c18_worlds_more => c18::worlds(3, 3);
    c18_query1 => c18::queries(3, 1, 5);
    c18_query1_more => c18::queries(6, 1, 5);
    c18_query2 => c18::queries(2, 2, 5);
    c18_query3 => c18::queries(3, 3, 1);
    c18_mut1 => c18::mutable(1);
    c18_mut2 => c18::mutable(2);
    c18_mut3 => c18::mutable(3);
}
