EARTH_RADIUS = 6371229.0
