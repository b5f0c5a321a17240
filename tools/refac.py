"""development helper: behaviour-preserving edits on which every check has to stay quiet. usage: refac.py [ID...]"""
import os, shutil, subprocess, sys
Q = "src/multi_physics/QED/src/"
R = []


def ref(id, props, edits):
    R.append((id, props, edits))


ref("chi-helper", "Q01 Q11 Q12", [(Q + "chi_functions.hpp", """    vec3<_REAL> p_unit = p / norm_p;
    vec3<_REAL> em_eperp = em_e - dot(p_unit,em_e)*p_unit;
    _REAL mod = norm(em_eperp + cross(p_unit*static_cast<_REAL>(__c), em_b));

    _REAL coeff = static_cast<_REAL>(1.0)/
        (static_cast<_REAL>(__emass*__c*__schwinger)*lambda);

    return mod*norm_p*coeff;
""", """    const _REAL inv = static_cast<_REAL>(1.0)/norm_p;
    const vec3<_REAL> n = p*inv;
    const _REAL par = dot(em_e, n);
    const vec3<_REAL> force = cross(n, em_b)*static_cast<_REAL>(__c) + (em_e - n*par);

    return norm_p*norm(force)/(static_cast<_REAL>(__emass*__c*__schwinger)*lambda);
""")])
ref("chi-lepton-order", "Q01 Q12", [(Q + "chi_functions.hpp", """    _REAL beta = sqrt(one-one/gamma_2);
    vec3<_REAL> beta_vec = beta * p_unit;
""", """    const vec3<_REAL> beta_vec = p_unit * sqrt(one-one/gamma_2);
"""), (Q + "chi_functions.hpp", """    _REAL beta_dot_e = dot(beta_vec, em_e);
    _REAL beta_dot_e_2 = beta_dot_e*beta_dot_e;
    _REAL e_plus_v_cross_b_2 = norm2(em_e +
        cross(beta_vec * static_cast<_REAL>(__c), em_b));
""", """    const vec3<_REAL> lorentz = em_e +
        cross(beta_vec * static_cast<_REAL>(__c), em_b);
    const _REAL e_plus_v_cross_b_2 = dot(lorentz, lorentz);
    _REAL beta_dot_e = dot(beta_vec, em_e);
    _REAL beta_dot_e_2 = beta_dot_e*beta_dot_e;
""")])
ref("norm2-loop", "Q02 Q01 Q12", [(Q + "vec_functions.hpp", "    return vec[0]*vec[0]+vec[1]*vec[1]+vec[2]*vec[2];", """    _REAL s = vec[0]*vec[0];
    for(int i = 1; i < 3; ++i)
        s += vec[i]*vec[i];
    return s;"""), (Q + "vec_functions.hpp", "    return va[0]*vb[0] + va[1]*vb[1] + va[2]*vb[2];", """    _REAL s = static_cast<_REAL>(0.0);
    for(int i = 2; i >= 0; --i)
        s += va[i]*vb[i];
    return s;""")])
ref("vector-copy-std", "Q03 Q04 Q05 Q16", [(Q + "picsar_vector.hpp", """    v_size = other.v_size;

    v_data = new T[other.v_size];
    for(size_t i = 0; i < v_size; i++)
        v_data[i] = other.v_data[i];

    should_manage_memory = true;
}""", """    v_size = other.v_size;
    v_data = new T[v_size];
    std::copy(other.v_data, other.v_data + other.v_size, v_data);
    should_manage_memory = true;
}""")])
ref("vector-copy-while", "Q03 Q04 Q05 Q16", [(Q + "picsar_vector.hpp", """    v_data = new T[other.v_size];
    for(size_t i = 0; i < v_size; i++)
        v_data[i] = other.v_data[i];

    should_manage_memory = true;

    return *this;""", """    v_data = new T[other.v_size];
    size_t left = v_size;
    while(left > 0){
        --left;
        v_data[left] = other.v_data[left];
    }

    should_manage_memory = true;

    return *this;""")])
ref("vector-assign-temp", "Q03 Q04 Q05 Q16", [(Q + "picsar_vector.hpp", """    if(should_manage_memory)
        delete[] v_data;

    v_size = other.v_size;

    v_data = new T[other.v_size];
    for(size_t i = 0; i < v_size; i++)
        v_data[i] = other.v_data[i];

    should_manage_memory = true;
""", """    T* const fresh = new T[other.v_size];
    for(size_t i = 0; i < other.v_size; i++)
        fresh[i] = other.v_data[i];

    if(should_manage_memory)
        delete[] v_data;

    v_data = fresh;
    v_size = other.v_size;
    should_manage_memory = true;
""")])
ref("vector-resize-loop", "Q03 Q06", [(Q + "picsar_vector.hpp", """    size_t how_many_copy = v_size;

    if(v_size > new_size)
        how_many_copy = new_size;

    std::copy(v_data, v_data+how_many_copy, temp_data);
    std::swap(v_data, temp_data);

    delete[] temp_data;

    v_size = new_size;""", """    const size_t how_many_copy = std::min(v_size, new_size);
    for(size_t i = 0; i < how_many_copy; ++i)
        temp_data[i] = v_data[i];

    delete[] v_data;
    v_data = temp_data;
    v_size = new_size;""")])
ref("interp-weights", "Q04 Q09 Q10", [(Q + "lookup_tables.hpp", ("lookup_1d<_REAL>::\ninterp_linear_equispaced(", """    return yleft + ((yright-yleft)/(xright-xleft))*(where-xleft);"""), """    const _REAL w = (where-xleft)/(xright-xleft);
    return (static_cast<_REAL>(1.0) - w)*yleft + w*yright;""")])
ref("interp-min", "Q04 Q09 Q10", [(Q + "lookup_tables.hpp", ("lookup_1d<_REAL>::\ninterp_linear_equispaced(", """    if(idx_left == coords.size()-1)
        --idx_left;
"""), """    const size_t last_cell = coords.size()-2;
    idx_left = (idx_left > last_cell) ? last_cell : idx_left;
""")])
ref("upper-bound-index", "Q08 Q04 Q05", [(Q + "utilities.hpp", """    const T* it;
    size_t count, step;
    count = last-first;
    while(count>0){
        it = first;
        step = count/2;
        it += step;
         if (!(val<*it)){
             first = ++it;
             count -= step + 1;
         }
         else{
             count = step;
         }
    }
    return first;
""", """    size_t lo = 0;
    size_t hi = last - first;
    while(lo < hi){
        const size_t mid = lo + (hi - lo)/2;
        if(val < first[mid])
            hi = mid;
        else
            lo = mid + 1;
    }
    return first + lo;
""")])
ref("upper-bound-linear", "Q08 Q04 Q05", [(Q + "utilities.hpp", """    const T* it;
    size_t count, step;
    count = last-first;
    while(count>0){
        it = first;
        step = count/2;
        it += step;
         if (!(val<*it)){
             first = ++it;
             count -= step + 1;
         }
         else{
             count = step;
         }
    }
    return first;
""", """    while(first != last && !(val < *first))
        ++first;
    return first;
""")])
ref("upper-bound-std", "Q08 Q04 Q05", [(Q + "utilities.hpp", """    const T* it;
    size_t count, step;
    count = last-first;
    while(count>0){
        it = first;
        step = count/2;
        it += step;
         if (!(val<*it)){
             first = ++it;
             count -= step + 1;
         }
         else{
             count = step;
         }
    }
    return first;
""", """    return std::upper_bound(first, last, val);
""")])
ref("poisson-for", "Q08 Q13", [(Q + "utilities.hpp", """    size_t k = 0;
    T p = exp(-lambda);
    T s = p;
    T old_s;
    while (unf_zero_one_minus_epsi > s){
        old_s = s;
        p = p*lambda/(++k);
        s += p;
        //If this is true we have reached the limit of the floating
        //point number that we are using
        if(s <= old_s)
            break;
    }
    return k;
""", """    size_t k = 0;
    T term = exp(-lambda);
    T total = term;
    for(;;){
        if(!(unf_zero_one_minus_epsi > total))
            return k;
        ++k;
        term *= lambda/k;
        const T next = total + term;
        //If this is true we have reached the limit of the floating
        //point number that we are using
        if(next <= total)
            return k;
        total = next;
    }
""")])
ref("log-spaced-while", "Q07 Q15", [(Q + "utilities.hpp", """    for(size_t i = 0; i < size-1; ++i){
        vec[i] = val;
        val*=mul;
    }
    vec.back() = max;""", """    size_t i = 0;
    while(i + 1 < size){
        vec[i++] = val;
        val = val*mul;
    }
    vec[size-1] = max;""")])
ref("lin-spaced-step", "Q07 Q15", [(Q + "utilities.hpp", """    for(size_t i = 0; i < size-1; ++i){
        vec[i] = static_cast<_REAL>(i*(max-min)/(size-1.0)) + min;
    }
    vec.back() = max; //Enforces this exactly
    return vec;
}

//Generates log_lin_log""", """    const _REAL step = static_cast<_REAL>((max-min)/(size-1.0));
    vec.back() = max; //Enforces this exactly
    for(size_t i = 0; i + 1 < size; ++i)
        vec[i] = min + i*step;
    return vec;
}

//Generates log_lin_log""")])
ref("dndt-early-return", "Q09", [(Q + "breit_wheeler_engine.hpp", """        TT = (static_cast<_REAL>(pi)*a/(two*b))*chi_phot*chi_phot*
            exp(-two*b/chi_phot);
    }
    else if(""", """        return coeff*((static_cast<_REAL>(pi)*a/(two*b))*chi_phot*chi_phot*
            exp(-two*b/chi_phot));
    }
    if(""")])
ref("depth-order", "Q09 Q14", [(Q + "breit_wheeler_engine.hpp", """    opt_depth -= dndt*dt;

    if(opt_depth < zero){
            //Calculates the time at which pair prod takes place
        event_dt = opt_depth/dndt + dt;
        has_event_happend = true;
    }

    return true;
""", """    const _REAL consumed = dt*dndt;
    has_event_happend = (opt_depth - consumed < zero);
    opt_depth -= consumed;
    if(has_event_happend)
        event_dt = dt + opt_depth/dndt;

    return true;
"""), (Q + "breit_wheeler_engine.hpp", """    if(ref_TTfunc_table.is_init()){
            dndt =
            internal_interp_dN_dt(energy, chi, ref_TTfunc_table, ref_bw_ctrl, _lambda);
    }
    //If not..
    else{
        return false;
    }
""", """    if(!ref_TTfunc_table.is_init())
        return false;
    dndt = internal_interp_dN_dt(energy, chi, ref_TTfunc_table, ref_bw_ctrl, _lambda);
""")])
ref("bw-search-for", "Q11", [(Q + "breit_wheeler_engine.hpp", """        size_t first = 0;
        size_t it;
        _REAL val;
        size_t count = how_many_frac;
        while(count > 0){
            it = first;
            size_t step = count/2;
            it += step;
            val =
                exp(ref_cum_distrib_table.interp_linear_first_equispaced
                    (log(tab_chi_phot), it));
            if(!(prob < val)){
                first = ++it;
                count -= step+1;
            }
            else{
                count = step;
            }
        }
""", """        size_t first = 0;
        size_t count = how_many_frac;
        while(count > 0){
            const size_t step = count/2;
            const size_t it = first + step;
            const _REAL val =
                exp(ref_cum_distrib_table.interp_linear_first_equispaced
                    (log_chi, it));
            if(prob < val){
                count = step;
            }
            else{
                first = it + 1;
                count -= step + 1;
            }
        }
"""), (Q + "breit_wheeler_engine.hpp", """    for(size_t s = 0; s < sampling; s++){
        _REAL prob = unf_zero_one_minus_epsi[s];
        bool invert""", """    const _REAL log_chi = log(tab_chi_phot);

    for(size_t s = 0; s < sampling; s++){
        _REAL prob = unf_zero_one_minus_epsi[s];
        bool invert""")])
ref("bw-search-lohi", "Q11", [(Q + "breit_wheeler_engine.hpp", """        size_t first = 0;
        size_t it;
        _REAL val;
        size_t count = how_many_frac;
        while(count > 0){
            it = first;
            size_t step = count/2;
            it += step;
            val =
                exp(ref_cum_distrib_table.interp_linear_first_equispaced
                    (log(tab_chi_phot), it));
            if(!(prob < val)){
                first = ++it;
                count -= step+1;
            }
            else{
                count = step;
            }
        }

        size_t upper = first;
""", """        size_t lo = 0;
        size_t hi = how_many_frac;
        while(lo < hi){
            const size_t mid = (lo + hi)/2;
            const _REAL val =
                exp(ref_cum_distrib_table.interp_linear_first_equispaced
                    (log(tab_chi_phot), mid));
            if(prob < val)
                hi = mid;
            else
                lo = mid + 1;
        }

        size_t upper = lo;
""")])
ref("bw-search-linear", "Q11", [(Q + "breit_wheeler_engine.hpp", """        size_t it;
        _REAL val;
        size_t count = how_many_frac;
        while(count > 0){
            it = first;
            size_t step = count/2;
            it += step;
            val =
                exp(ref_cum_distrib_table.interp_linear_first_equispaced
                    (log(tab_chi_phot), it));
            if(!(prob < val)){
                first = ++it;
                count -= step+1;
            }
            else{
                count = step;
            }
        }
""", """        while(first < how_many_frac){
            const _REAL val =
                exp(ref_cum_distrib_table.interp_linear_first_equispaced
                    (log(tab_chi_phot), first));
            if(prob < val)
                break;
            ++first;
        }
""")])
ref("bw-momentum-expanded", "Q11", [(Q + "breit_wheeler_engine.hpp", """        _REAL cc_ele = sqrt((one+chi_ele*coeff)*(one+chi_ele*coeff)-one)*me_c;
        _REAL cc_pos = sqrt((one+chi_pos*coeff)*(one+chi_pos*coeff)-one)*me_c;
""", """        const _REAL gamma_ele = one+chi_ele*coeff;
        const _REAL gamma_pos = one+chi_pos*coeff;
        _REAL cc_ele = me_c*sqrt(gamma_ele*gamma_ele-one);
        _REAL cc_pos = me_c*sqrt(gamma_pos*gamma_pos-one);
"""), (Q + "breit_wheeler_engine.hpp", """        if(invert){
            _REAL tt = chi_ele;
            chi_ele = chi_pos;
            chi_pos = tt;
        }
""", """        if(invert)
            std::swap(chi_ele, chi_pos);
""")])
ref("qs-emission-order", "Q12", [(Q + "quantum_sync_engine.hpp", """        _REAL chi_phot = chi_phot_frac*chi_part;
        _REAL gamma_phot = chi_phot/chi_part*(gamma_part-one);

        vec3<_REAL>  p_phot = gamma_phot * n_part * me_c;
""", """        const _REAL kinetic = gamma_part - one;
        const _REAL mod = me_c*chi_phot_frac*kinetic;

        vec3<_REAL>  p_phot = mod * n_part;
"""), (Q + "quantum_sync_engine.hpp", """        //Update particle momentum
        px -= p_phot[0]*one_over_sampling;
        py -= p_phot[1]*one_over_sampling;
        pz -= p_phot[2]*one_over_sampling;

    }
""", """        //Momentum carried away
        lost = lost + p_phot*one_over_sampling;
    }

    //Update particle momentum
    px -= lost[0];
    py -= lost[1];
    pz -= lost[2];
"""), (Q + "quantum_sync_engine.hpp", "    _REAL one_over_sampling = one/sampling;\n", "    _REAL one_over_sampling = one/sampling;\n    vec3<_REAL> lost{zero, zero, zero};\n")])
ref("qs-clamp-ternary", "Q12 Q10", [(Q + "quantum_sync_engine.hpp", """    _REAL tab_chi_part = chi_part;
    if(chi_part < ref_qs_ctrl.chi_part_tem_min)
        tab_chi_part = ref_qs_ctrl.chi_part_tem_min;
    else if(chi_part > ref_qs_ctrl.chi_part_tem_max)
        tab_chi_part = ref_qs_ctrl.chi_part_tem_max;
""", """    const _REAL tab_chi_part =
        (chi_part < ref_qs_ctrl.chi_part_tem_min) ? ref_qs_ctrl.chi_part_tem_min :
        ((chi_part > ref_qs_ctrl.chi_part_tem_max) ? ref_qs_ctrl.chi_part_tem_max : chi_part);
"""), (Q + "quantum_sync_engine.hpp", """    if(chi_part <= ref_qs_ctrl.chi_part_tdndt_min){
        chi_part = ref_qs_ctrl.chi_part_tdndt_min;
    }
    else if(chi_part >= ref_qs_ctrl.chi_part_tdndt_max){
        chi_part = ref_qs_ctrl.chi_part_tdndt_max ;
    }
""", """    chi_part = std::max(ref_qs_ctrl.chi_part_tdndt_min,
        std::min(chi_part, ref_qs_ctrl.chi_part_tdndt_max));
""")])
ref("schwinger-switch", "Q13", [(Q + "schwinger_pair_engine.hpp", """    _REAL res;

    if(epsi != zero && eta != zero)
        res = epsi*eta*exp(-pi/epsi)/tanh(pi*eta/epsi);
    else if(epsi == zero)
        return zero;
    else
        res = epsi*epsi*exp(-pi/epsi)/pi;
""", """    if(epsi == zero)
        return zero;

    const _REAL damping = exp(-pi/epsi);
    _REAL res = epsi*damping;
    if(eta == zero)
        res *= epsi/pi;
    else
        res *= eta/tanh(pi*eta/epsi);
""")])
ref("schwinger-helper", "Q13", [(Q + "schwinger_pair_engine.hpp", ("internal_generate_pairs_single(\n_REAL ex, _REAL ey, _REAL ez,\n_REAL bx, _REAL by, _REAL bz,\n_REAL dx, _REAL dy, _REAL dz,\n_REAL dt,\nbool*", """    _REAL rate = internal_compute_schwinger_pair_production_rate
        (ex, ey, ez, bx, by, bz, _lambda);

    _REAL volume = dx*dy*dz;
    _REAL probability = rate*volume*dt;

    *weight = one/volume;
"""), """    const _REAL volume = dz*dy*dx;
    *weight = one/volume;
    const _REAL probability = volume*dt*internal_compute_schwinger_pair_production_rate
        (ex, ey, ez, bx, by, bz, _lambda);
""")])
ref("table2-index", "Q15", [(Q + "breit_wheeler_engine.hpp", """        size_t cc = ii*frac_coords.size();
        pair_vals[cc++] = zero;
        for(size_t jj = 1; jj < frac_coords.size() - 1; jj++){
            pair_vals[cc++] = compute_cumulative_pair(
                chi_phot, chi_phot*frac_coords[jj]);
        }
        pair_vals[cc++] = (one/two); //The function is symmetric
""", """        const size_t width = frac_coords.size();
        pair_vals[ii*width] = zero;
        pair_vals[ii*width + width - 1] = one/two; //The function is symmetric
        for(size_t jj = 1; jj + 1 < width; jj++){
            pair_vals[ii*width + jj] = compute_cumulative_pair(
                chi_phot, frac_coords[jj]*chi_phot);
        }
""")])
ref("table1-logloop", "Q15", [(Q + "breit_wheeler_engine.hpp", """    std::transform(chi_coords.begin(), chi_coords.end(), chi_coords.begin(), logfun);
    std::transform(pair_vals""", """    for(auto& val : chi_coords)
        val = logfun(val);
    std::transform(pair_vals""")])
ref("io-helper", "Q06 Q16", [(Q + "lookup_tables.hpp", ("lookup_1d<_REAL>::\nwrite_on_stream_bin(", """    size_t size_coords = coords.size();
    out.write(
        reinterpret_cast<char*>(&size_coords), sizeof(size_coords));
    out.write(
        reinterpret_cast<char*>(coords.data()), sizeof(_REAL)*size_coords);
    size_t size_data = data.size();
    out.write(
        reinterpret_cast<char*>(&size_data), sizeof(size_data));
    out.write(
        reinterpret_cast<char*>(data.data()), sizeof(_REAL)*size_data);
"""), """    auto put = [&out](const picsar_vector<_REAL>& v){
        const size_t how_many = v.size();
        out.write(reinterpret_cast<const char*>(&how_many), sizeof(how_many));
        out.write(reinterpret_cast<const char*>(v.data()), sizeof(_REAL)*how_many);
    };
    put(coords);
    put(data);
""")])
ref("io-2d-loop", "Q06 Q16", [(Q + "lookup_tables.hpp", ("lookup_2d<_REAL>::\nread_from_stream_bin(", """    size_t size_coords_0;
    in.read (
        reinterpret_cast<char*>(&size_coords_0), sizeof(size_coords_0));
    coords[0].resize(size_coords_0);
    in.read (
        reinterpret_cast<char*>(coords[0].data()), sizeof(_REAL)*size_coords_0);
"""), """    size_t size_coords_0 = 0;
    in.read (
        reinterpret_cast<char*>(&size_coords_0), sizeof(size_t));
    auto& first = coords[0];
    first.resize(size_coords_0);
    in.read (
        reinterpret_cast<char*>(&first[0]), size_coords_0*sizeof(_REAL));
""")])
ref("integrand-order", "Q14", [(Q + "breit_wheeler_engine.hpp", """    _REAL div = static_cast<_REAL>(pi)*sqrt(three);

    return (compute_inner_integral(xx)-(two-chi_phot*xx_3_2)
        *k_v(two/three, (two/three)*xx_3_2))/div;
""", """    const _REAL bessel = k_v(two/three, two*xx_3_2/three);
    const _REAL inner = compute_inner_integral(xx);

    return (inner + chi_phot*xx_3_2*bessel - two*bessel)/(sqrt(three)*static_cast<_REAL>(pi));
""")])
ref("engine-assign", "Q16", [(Q + "breit_wheeler_engine.hpp", """        this->rng = other.rng;
        this->bw_ctrl = other.bw_ctrl;
        this->TTfunc_table = other.TTfunc_table;
        this->cum_distrib_table = other.cum_distrib_table;
""", """        cum_distrib_table = other.cum_distrib_table;
        TTfunc_table = other.TTfunc_table;
        bw_ctrl = other.bw_ctrl;
        rng = other.rng;
""")])
ref("draw-loop", "Q11 Q16 Q14", [(Q + "breit_wheeler_engine.hpp", """    for(auto& el: unf_zero_one_minus_epsi)
        el = rng.unf(zero, one);
""", """    for(size_t s = 0; s < sampling; ++s)
        unf_zero_one_minus_epsi[s] = rng.unf(zero, one);
""")])
ref("rng-unf", "Q18", [(Q + "rng_wrapper.hpp", "return ", "return "), ])
ref("root-midpoint", "Q19", [(Q + "utilities.hpp", "        return r.first + (r.second - r.first)/static_cast<_REAL>(2.0);", "        return (r.first + r.second)/static_cast<_REAL>(2.0);")])
ref("pairs-loops-split", "Q11 Q16", [(Q + "breit_wheeler_engine.hpp", """    for(size_t s = 0; s < sampling; s++){
        electrons[s] =
        std::make_pair(vec3<_REAL>{e_px[s], e_py[s], e_pz[s]}, e_weight[s]);
        positrons[s] =
        std::make_pair(vec3<_REAL>{p_px[s], p_py[s], p_pz[s]}, p_weight[s]);
    }
""", """    for(size_t s = 0; s < sampling; s++){
        electrons[s] =
        std::make_pair(vec3<_REAL>{e_px[s], e_py[s], e_pz[s]}, e_weight[s]);
    }
    for(size_t s = 0; s < sampling; s++){
        positrons[s].first = vec3<_REAL>{p_px[s], p_py[s], p_pz[s]};
        positrons[s].second = p_weight[s];
    }
""")])


def edit(root, edits):
    for f, old, new in edits:
        p = os.path.join(root, f)
        s = open(p).read()
        at = 0
        if isinstance(old, tuple):
            at = s.index(old[0])
            old = old[1]
        i = s.index(old, at)
        s = s[:i] + new + s[i + len(old):]
        open(p, "w").write(s)


if __name__ == "__main__":
    want = sys.argv[1:]
    for id, props, edits in R:
        if want and id not in want:
            continue
        w = "/tmp/refac_" + id
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        subprocess.run("cd /repo && tar c --exclude=./_build --exclude=./.git . | tar x -C " + w, shell=True, check=True)
        try:
            edit(w, edits)
        except ValueError:
            print(id, "EDIT DOES NOT APPLY")
            continue
        for p in props.split():
            r = subprocess.run(["./check", p], cwd="/verif", env=dict(os.environ, PICSAR_REPO=w, DV_OUT=w + "_out"), capture_output=True, text=True, timeout=880)
            print("%-22s rc=%d %s" % (id, r.returncode, r.stdout.strip().splitlines()[-1]), flush=True)
            for l in r.stdout.splitlines():
                if "VIOLATION" in l or "ERROR" in l or "violated" in l:
                    print("      ", l[:250], flush=True)
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(w + "_out", ignore_errors=True)
