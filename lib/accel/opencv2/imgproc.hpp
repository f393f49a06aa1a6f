#pragma once
#include "opencv2/core.hpp"
#define CV_INTER_NN 0
#define CV_INTER_LINEAR 1
#define CV_INTER_CUBIC 2
#define CV_INTER_AREA 3
#define CV_INTER_LANCZOS4 4
namespace cv
{
enum
{
    INTER_NEAREST = 0,
    INTER_LINEAR  = 1,
    INTER_CUBIC   = 2,
    INTER_AREA    = 3,
    INTER_LANCZOS4 = 4,
    WARP_INVERSE_MAP = 16,
    BORDER_CONSTANT = 0
};
inline Mat getRotationMatrix2D(Point2f c, double angle, double scale)
{
    angle *= CV_PI / 180;
    double a = std::cos(angle) * scale, b = std::sin(angle) * scale;
    Mat    m(2, 3, CV_64F);
    m.at<double>(0, 0) = a;
    m.at<double>(0, 1) = b;
    m.at<double>(0, 2) = (1 - a) * c.x - b * c.y;
    m.at<double>(1, 0) = -b;
    m.at<double>(1, 1) = a;
    m.at<double>(1, 2) = b * c.x + (1 - a) * c.y;
    return m;
}
namespace detail
{
inline int sat(double v) { return static_cast<int>(std::max(-2147483648.0, std::min(2147483647.0, std::nearbyint(v)))); }
template <typename T>
void nearest(const Mat& s, Mat& d, int X, int Y, int y, int x)
{
    d.at<T>(y, x) = (X >= 0 && Y >= 0 && X < s.cols && Y < s.rows) ? s.at<T>(Y, X) : T(0);
}
}  // namespace detail
inline void warpAffine(const Mat& src, Mat& dst, const Mat& M0, Size dsize, int flags = INTER_LINEAR, int = BORDER_CONSTANT, const Scalar& = Scalar())
{
    const int inter = flags & 7;
    if(src.empty())
        throw Exception("warpAffine: empty source");
    if(inter != INTER_NEAREST && src.type() != CV_32F)
        throw Exception("warpAffine: type not supported");
    if(inter > INTER_CUBIC)
        throw Exception("warpAffine: interpolation not in the stand-in");
    dst.create(dsize.height, dsize.width, src.type());
    double M[6];
    for(int i = 0; i < 6; ++i)
        M[i] = M0.at<double>(i / 3, i % 3);
    if(!(flags & WARP_INVERSE_MAP))
    {
        double D = M[0] * M[4] - M[1] * M[3];
        D        = D != 0 ? 1. / D : 0;
        double A11 = M[4] * D, A22 = M[0] * D;
        M[0] = A11;
        M[1] *= -D;
        M[3] *= -D;
        M[4]      = A22;
        double b1 = -M[0] * M[2] - M[1] * M[5];
        double b2 = -M[3] * M[2] - M[4] * M[5];
        M[2] = b1;
        M[5] = b2;
    }
    const int AB = 10, TAB = 32;
    const int round_delta = inter == INTER_NEAREST ? (1 << AB) / 2 : (1 << AB) / TAB / 2;
    for(int y = 0; y < dst.rows; ++y)
    {
        int X0 = detail::sat((M[1] * y + M[2]) * (1 << AB)) + round_delta;
        int Y0 = detail::sat((M[4] * y + M[5]) * (1 << AB)) + round_delta;
        for(int x = 0; x < dst.cols; ++x)
        {
            int X = X0 + detail::sat(M[0] * x * (1 << AB)), Y = Y0 + detail::sat(M[3] * x * (1 << AB));
            if(inter == INTER_NEAREST)
            {
                X >>= AB, Y >>= AB;
                switch(src.elemSize())
                {
                    case 1: detail::nearest<uint8_t>(src, dst, X, Y, y, x); break;
                    case 2: detail::nearest<uint16_t>(src, dst, X, Y, y, x); break;
                    case 4: detail::nearest<uint32_t>(src, dst, X, Y, y, x); break;
                    default: detail::nearest<uint64_t>(src, dst, X, Y, y, x);
                }
                continue;
            }
            X >>= AB - 5, Y >>= AB - 5;
            float fx = (X & 31) / 32.f, fy = (Y & 31) / 32.f;
            X >>= 5, Y >>= 5;
            float wx[4], wy[4];
            int   n, o;
            auto  w = [&](float f, float* c) {
                if(inter == INTER_LINEAR)
                {
                    c[0] = 1.f - f;
                    c[1] = f;
                    return;
                }
                const float A = -0.75f;
                c[0] = ((A * (f + 1) - 5 * A) * (f + 1) + 8 * A) * (f + 1) - 4 * A;
                c[1] = ((A + 2) * f - (A + 3)) * f * f + 1;
                c[2] = ((A + 2) * (1 - f) - (A + 3)) * (1 - f) * (1 - f) + 1;
                c[3] = 1.f - c[0] - c[1] - c[2];
            };
            n = inter == INTER_LINEAR ? 2 : 4;
            o = inter == INTER_LINEAR ? 0 : 1;
            w(fx, wx);
            w(fy, wy);
            float sum = 0;
            for(int i = 0; i < n; ++i)
                for(int j = 0; j < n; ++j)
                {
                    int yy = Y + i - o, xx = X + j - o;
                    if(yy >= 0 && xx >= 0 && yy < src.rows && xx < src.cols)
                        sum += src.at<float>(yy, xx) * (wy[i] * wx[j]);
                }
            dst.at<float>(y, x) = sum;
        }
    }
}
}  // namespace cv
