"""Independent draws taken in another order: seeded numbers change, every stated property still holds."""
M = 'src/model/'
EDITS = [
 (M + 'variance_gamma_model.cpp', '''            const double g = (*generator_)(gammaDist); // Gamma subordinator
            const double z = (*generator_)(snDist);  // Normal distributed increment
''', '''            const double z = (*generator_)(snDist);  // Normal distributed increment
            const double g = (*generator_)(gammaDist); // Gamma subordinator
'''),
 (M + 'merton_jump_diffusion_model.cpp', '''            // Diffusion part: Standard Brownian Motion
            const double z = (*generator_)(snDist);
            const double diffusion = sigma * sqrt(dt) * z;
''', ''),
 (M + 'merton_jump_diffusion_model.cpp', '''            // Update stock price
''', '''            const double z = (*generator_)(snDist);
            const double diffusion = sigma * sqrt(dt) * z;
'''),
 (M + 'kou_model.cpp', '''            // Diffusion part: Standard Brownian Motion
            const double z = (*generator_)(snDist);
            const double diffusion = sigma * sqrt(dt) * z;
''', ''),
 (M + 'kou_model.cpp', '''            // Update stock price
''', '''            const double z = (*generator_)(snDist);
            const double diffusion = sigma * sqrt(dt) * z;
'''),
 (M + 'heston_model.cpp', '''            const double z1 = (*generator_)(snd);
            const double z2 = (*generator_)(snd);''', '''            const double z2 = (*generator_)(snd);
            const double z1 = (*generator_)(snd);'''),
 (M + 'bates_model.cpp', '''            const double z1 = (*generator_)(snd);
            const double z2 = (*generator_)(snd);
            const double zV = z1;
            const double zS = rho_ * z1 + sqrt(1 - rho_*rho_) * z2;
''', '''            const double zS = (*generator_)(snd);
            const double zV = rho_ * zS + sqrt(1 - rho_*rho_) * (*generator_)(snd);
'''),
]
