// Stand-in for the parts of OpenCV that libtomo's accelerated kernels use. warpAffine follows OpenCV's
// fixed-point arithmetic (10 bits for positions, 5 bits for weights; constant border of zeros).
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#define CV_8U 0
#define CV_8S 1
#define CV_16U 2
#define CV_16S 3
#define CV_32S 4
#define CV_32F 5
#define CV_64F 6
#define CV_PI 3.1415926535897932384626433832795
typedef unsigned char uchar;
namespace cv
{
struct Exception : std::runtime_error
{
    using std::runtime_error::runtime_error;
};
inline void setNumThreads(int) {}
template <typename T>
struct Point_
{
    T x, y;
    Point_() : x(0), y(0) {}
    template <typename A, typename B>
    Point_(A a, B b) : x(static_cast<T>(a)), y(static_cast<T>(b)) {}
    template <typename U>
    Point_(const Point_<U>& o) : x(static_cast<T>(o.x)), y(static_cast<T>(o.y)) {}
};
typedef Point_<int>    Point;
typedef Point_<int>    Point2i;
typedef Point_<float>  Point2f;
typedef Point_<double> Point2d;
struct Size
{
    int width, height;
    Size(int w = 0, int h = 0) : width(w), height(h) {}
};
struct Scalar
{
    double v[4];
    Scalar(double a = 0) : v{ a, 0, 0, 0 } {}
};
class Mat
{
public:
    int rows = 0, cols = 0;
    Mat() {}
    Mat(int r, int c, int t) { create(r, c, t); }
    Mat(int r, int c, int t, void* d) : rows(r), cols(c), m_type(t), m_ptr(static_cast<uchar*>(d)) {}
    static Mat zeros(int r, int c, int t)
    {
        Mat m(r, c, t);
        if(m.m_ptr)
            memset(m.m_ptr, 0, std::size_t(r) * c * m.elemSize());
        return m;
    }
    void create(int r, int c, int t)
    {
        if(r < 0 || c < 0)
            throw Exception("Mat: negative size");
        if(m_ptr && rows == r && cols == c && m_type == t)
            return;
        rows = r, cols = c, m_type = t;
        m_own = std::shared_ptr<uchar>(new uchar[std::size_t(r) * c * elemSize()], std::default_delete<uchar[]>());
        m_ptr = m_own.get();
    }
    std::size_t elemSize() const
    {
        static const int s[] = { 1, 1, 2, 2, 4, 4, 8 };
        return s[m_type];
    }
    uchar*       ptr(int y = 0) { return m_ptr + std::size_t(y) * cols * elemSize(); }
    const uchar* ptr(int y = 0) const { return m_ptr + std::size_t(y) * cols * elemSize(); }
    template <typename T>
    T* ptr(int y = 0) { return reinterpret_cast<T*>(ptr(y)); }
    template <typename T>
    const T* ptr(int y = 0) const { return reinterpret_cast<const T*>(ptr(y)); }
    template <typename T>
    T& at(int y, int x) { return ptr<T>(y)[x]; }
    template <typename T>
    const T& at(int y, int x) const { return ptr<T>(y)[x]; }
    int  type() const { return m_type; }
    Size size() const { return Size(cols, rows); }
    bool empty() const { return rows == 0 || cols == 0; }
    uchar*& data_ref() { return m_ptr; }

private:
    int                    m_type = CV_8U;
    uchar*                 m_ptr  = nullptr;
    std::shared_ptr<uchar> m_own;
};
}  // namespace cv
