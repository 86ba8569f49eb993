#ifndef VERIF_CAMP_PLATFORM_HPP
#define VERIF_CAMP_PLATFORM_HPP
namespace camp {
namespace resources {
enum class Platform { undefined = 0, host = 1, cuda = 2, omp_target = 4, hip = 8, sycl = 16 };
}
}
#endif
