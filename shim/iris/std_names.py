"""A subset of the CF standard-name table (names used in meteorology)."""

_TABLE = {
    "K": """air_temperature dew_point_temperature wet_bulb_temperature surface_temperature
        air_potential_temperature wet_bulb_potential_temperature sea_surface_temperature
        soil_temperature equivalent_potential_temperature brightness_temperature
        toa_brightness_temperature land_ice_temperature sea_ice_temperature
        dew_point_depression air_temperature_anomaly virtual_temperature
        equivalent_temperature air_temperature_at_cloud_top
        air_equivalent_potential_temperature air_equivalent_temperature
        air_pseudo_equivalent_potential_temperature""",
    "Pa": """air_pressure surface_air_pressure air_pressure_at_sea_level
        air_pressure_at_cloud_base air_pressure_at_cloud_top
        air_pressure_at_convective_cloud_base air_pressure_at_convective_cloud_top
        air_pressure_at_freezing_level water_vapor_partial_pressure_in_air
        tropopause_air_pressure reference_pressure air_pressure_at_mean_sea_level
        surface_downward_eastward_stress surface_downward_northward_stress""",
    "m": """altitude height surface_altitude depth visibility_in_air
        projection_x_coordinate_unused atmosphere_boundary_layer_thickness
        freezing_level_altitude tropopause_altitude cloud_base_altitude
        cloud_top_altitude convective_cloud_base_altitude convective_cloud_top_altitude
        geopotential_height thickness_of_snowfall_amount surface_snow_thickness
        lwe_thickness_of_precipitation_amount lwe_thickness_of_snowfall_amount
        lwe_thickness_of_convective_precipitation_amount
        lwe_thickness_of_stratiform_precipitation_amount
        lwe_thickness_of_convective_snowfall_amount
        lwe_thickness_of_stratiform_snowfall_amount
        lwe_thickness_of_surface_snow_amount
        thickness_of_rainfall_amount thickness_of_convective_rainfall_amount
        thickness_of_stratiform_rainfall_amount
        surface_roughness_length sea_surface_height_above_sea_level
        sea_surface_wave_significant_height height_above_mean_sea_level
        height_above_reference_ellipsoid geoid_height_above_reference_ellipsoid
        projection_x_coordinate projection_y_coordinate
        standard_deviation_of_surface_altitude_unused""",
    "m s-1": """wind_speed wind_speed_of_gust eastward_wind northward_wind x_wind y_wind
        upward_air_velocity lwe_precipitation_rate lwe_snowfall_rate rainfall_rate
        lwe_convective_precipitation_rate lwe_stratiform_precipitation_rate
        lwe_convective_snowfall_rate lwe_stratiform_snowfall_rate
        lwe_thickness_of_snowfall_rate_unused convective_rainfall_rate
        stratiform_rainfall_rate precipitation_rate_unused
        lwe_precipitation_rate_unused eastward_wind_shear_unused""",
    "s-1": """divergence_of_wind atmosphere_relative_vorticity atmosphere_absolute_vorticity
        wind_speed_shear""",
    "Pa s-1": "lagrangian_tendency_of_air_pressure",
    "degree": """wind_from_direction wind_to_direction solar_zenith_angle
        solar_azimuth_angle solar_elevation_angle sensor_zenith_angle
        grid_latitude grid_longitude sea_surface_wave_from_direction wind_gust_from_direction""",
    "degree_north": "latitude",
    "degree_east": "longitude",
    "1": """realization land_binary_mask relative_humidity specific_humidity
        humidity_mixing_ratio cloud_area_fraction cloud_area_fraction_in_atmosphere_layer
        low_type_cloud_area_fraction medium_type_cloud_area_fraction
        high_type_cloud_area_fraction convective_cloud_area_fraction
        stratiform_cloud_area_fraction sea_area_fraction land_area_fraction
        sea_ice_area_fraction vegetation_area_fraction surface_snow_area_fraction
        model_level_number atmosphere_sigma_coordinate surface_albedo
        mass_fraction_of_cloud_liquid_water_in_air mass_fraction_of_cloud_ice_in_air
        mass_fraction_of_rain_in_air
        cloud_liquid_water_mixing_ratio cloud_ice_mixing_ratio
        soil_type area_type atmosphere_hybrid_height_coordinate_unused
        atmosphere_hybrid_sigma_pressure_coordinate probability_of_precipitation_unused
        surface_cover land_cover region relative_humidity_unused
        volume_fraction_of_condensed_water_in_soil quality_flag
        fog_area_fraction atmosphere_mass_fraction_unused
        ultraviolet_index""",
    "W m-2": """surface_downwelling_shortwave_flux_in_air
        surface_downwelling_shortwave_flux_in_air_assuming_clear_sky
        surface_downwelling_longwave_flux_in_air
        surface_net_downward_shortwave_flux surface_net_downward_longwave_flux
        surface_upwelling_shortwave_flux_in_air surface_upwelling_longwave_flux_in_air
        surface_upward_latent_heat_flux surface_upward_sensible_heat_flux
        surface_direct_downwelling_shortwave_flux_in_air
        surface_diffuse_downwelling_shortwave_flux_in_air
        toa_incoming_shortwave_flux toa_outgoing_longwave_flux
        toa_outgoing_shortwave_flux
        surface_downwelling_ultraviolet_flux_in_air_unused""",
    "W s m-2": """integral_wrt_time_of_surface_downwelling_shortwave_flux_in_air
        integral_wrt_time_of_surface_net_downward_shortwave_flux""",
    "kg m-2": """precipitation_amount rainfall_amount snowfall_amount
        convective_precipitation_amount convective_rainfall_amount
        convective_snowfall_amount stratiform_rainfall_amount
        stratiform_snowfall_amount surface_snow_amount
        atmosphere_mass_content_of_water_vapor atmosphere_cloud_liquid_water_content
        atmosphere_water_vapor_content atmosphere_mass_content_of_cloud_ice
        soil_moisture_content atmosphere_mass_content_of_cloud_liquid_water
        graupel_fall_amount hail_fall_amount""",
    "kg m-2 s-1": """precipitation_flux rainfall_flux snowfall_flux
        convective_precipitation_flux convective_rainfall_flux
        convective_snowfall_flux stratiform_rainfall_flux stratiform_snowfall_flux
        graupel_fall_flux hail_fall_flux""",
    "K m-1": "air_temperature_lapse_rate",
    "J kg-1": """atmosphere_convective_available_potential_energy
        atmosphere_convective_inhibition
        atmosphere_convective_available_potential_energy_wrt_surface
        atmosphere_convective_inhibition_wrt_surface""",
    "kg m-3": "air_density mass_concentration_of_pm2p5_ambient_aerosol_particles_in_air mass_concentration_of_ozone_in_air",
    "m2 s-2": "geopotential",
    "s": "forecast_period time forecast_reference_time age_of_stratospheric_air",
    "m2": "cell_area",
    "kg": "",
    "W": "",
    "dBZ": "equivalent_reflectivity_factor",
    "days": "",
    "radian s-1": "",
}
# names in IMPROVER that are *not* CF standard names must not be listed here
_NOT_STD = {"wind_gust_from_direction", "air_temperature_lapse_rate"}
STD_NAMES = {}
for _units, _names in _TABLE.items():
    for _n in _names.split():
        if not _n.endswith("_unused") and _n not in _NOT_STD:
            STD_NAMES[_n] = {"canonical_units": _units}
for _alias in ("grid_eastward_wind", "grid_northward_wind"):
    STD_NAMES[_alias] = {"canonical_units": "m s-1"}
STD_NAMES["air_temperature_lapse_rate"] = {"canonical_units": "K m-1"}
