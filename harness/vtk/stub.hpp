// As much of VTK's interface as cafes/io/vtk.hpp uses: objects that keep what they are given, and
// writers that write it the way VTK's do with ascii data.
#ifndef VH_VTK_STUB
#define VH_VTK_STUB
#include <array>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <string>
#include <vector>
#define VTK_MAJOR_VERSION 9
using std::endl;
using std::ios;
using std::ofstream;

// objects go when nobody refers to them any more
template<typename T>
struct vtkNewable
{
    static T *New() { return new T; }
    void Register() { ++refs; }
    void Delete()
    {
        if (--refs == 0) delete static_cast<T *>(this);
    }
    int refs = 1;
};
template<typename T>
struct vtkSmartPointer
{
    T *p = nullptr;
    vtkSmartPointer() = default;
    vtkSmartPointer(T *q) : p(q) { if (p) p->Register(); }
    vtkSmartPointer(vtkSmartPointer const &q) : vtkSmartPointer(q.p) {}
    vtkSmartPointer &operator=(vtkSmartPointer q)
    {
        std::swap(p, q.p);
        return *this;
    }
    ~vtkSmartPointer() { if (p) p->Delete(); }
    static vtkSmartPointer New()
    {
        vtkSmartPointer q;
        q.p = new T;
        return q;
    }
    T *operator->() const { return p; }
    operator T *() const { return p; }
};

struct vtkPoints : vtkNewable<vtkPoints>
{
    bool dbl = false;
    std::vector<std::array<double, 3>> at;
    void SetDataTypeToDouble() { dbl = true; }
    void SetNumberOfPoints(long n) { at.resize(n); }
    std::array<double, 3> round(double x, double y, double z) const
    {
        if (dbl) return {{x, y, z}};
        return {{(float)x, (float)y, (float)z}};
    }
    long InsertNextPoint(double x, double y, double z)
    {
        at.push_back(round(x, y, z));
        return (long)at.size() - 1;
    }
    void SetPoint(long i, double x, double y, double z) { at.at(i) = round(x, y, z); }
};
struct vtkDoubleArray : vtkNewable<vtkDoubleArray>
{
    std::string name;
    int comp = 1;
    std::vector<double> v;
    void SetName(char const *n) { name = n; }
    void SetNumberOfComponents(int c) { comp = c; }
    void SetNumberOfTuples(long n) { v.resize(n * comp); }
    void SetValue(long i, double x) { v.at(i) = x; }
    void InsertNextValue(double x) { v.push_back(x); }
    void InsertNextTuple1(double x) { v.push_back(x); }
    void InsertNextTuple3(double x, double y, double z)
    {
        v.push_back(x);
        v.push_back(y);
        v.push_back(z);
    }
};
struct vtkPointData
{
    std::vector<vtkSmartPointer<vtkDoubleArray>> arrays;
    void AddArray(vtkDoubleArray *a) { arrays.emplace_back(a); }
    void SetScalars(vtkDoubleArray *a) { arrays.emplace_back(a); }
    void SetVectors(vtkDoubleArray *a) { arrays.emplace_back(a); }
};
struct vtkDataSetStub
{
    vtkSmartPointer<vtkPoints> points;
    vtkPointData data;
    void SetPoints(vtkPoints *p) { points = p; }
    vtkPointData *GetPointData() { return &data; }
    void write(std::ostream &o) const
    {
        o.precision(17);
        o << "<Points><DataArray type=\"" << (points && points->dbl ? "Float64" : "Float32") << "\" Name=\"Points\" NumberOfComponents=\"3\" format=\"ascii\">";
        if (points)
            for (auto const &p : points->at) o << p[0] << " " << p[1] << " " << p[2] << " ";
        o << "</DataArray></Points><PointData>";
        for (auto const &a : data.arrays)
        {
            o << "<DataArray type=\"Float64\" Name=\"" << a->name << "\" NumberOfComponents=\"" << a->comp << "\" format=\"ascii\">";
            for (auto x : a->v) o << x << " ";
            o << "</DataArray>";
        }
        o << "</PointData>";
    }
};
struct vtkStructuredGrid : vtkNewable<vtkStructuredGrid>, vtkDataSetStub
{
    std::array<int, 6> ext{};
    void SetExtent(int a, int b, int c, int d, int e, int f) { ext = {{a, b, c, d, e, f}}; }
};
struct vtkPolyData : vtkNewable<vtkPolyData>, vtkDataSetStub
{
    void Allocate(long, long) {}
};
struct vtkXMLStructuredGridWriter : vtkNewable<vtkXMLStructuredGridWriter>
{
    std::string file;
    vtkSmartPointer<vtkStructuredGrid> in;
    void SetFileName(char const *f) { file = f; }
    void SetInputData(vtkStructuredGrid *g) { in = g; }
    int Write()
    {
        std::ofstream o(file);
        std::string e;
        for (auto x : in->ext) e += (e.empty() ? "" : " ") + std::to_string(x);
        o << "<?xml version=\"1.0\"?><VTKFile type=\"StructuredGrid\"><StructuredGrid WholeExtent=\"" << e << "\"><Piece Extent=\"" << e << "\">";
        in->write(o);
        o << "</Piece></StructuredGrid></VTKFile>";
        return o.good();
    }
};
struct vtkXMLPolyDataWriter : vtkNewable<vtkXMLPolyDataWriter>
{
    std::string file;
    vtkSmartPointer<vtkPolyData> in;
    void SetFileName(char const *f) { file = f; }
    void SetInputData(vtkPolyData *g) { in = g; }
    int Write()
    {
        std::ofstream o(file);
        o << "<?xml version=\"1.0\"?><VTKFile type=\"PolyData\"><PolyData><Piece NumberOfPoints=\"" << (in->points ? in->points->at.size() : 0) << "\">";
        in->write(o);
        o << "</Piece></PolyData></VTKFile>";
        return o.good();
    }
};
#endif
