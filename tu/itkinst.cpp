// Instantiates the measurement templates of itk::Regression, so that the verifier sees their bodies.
#include "itktfRegression.h"
#include "itkSize.h"
#include "itkIndex.h"
#include "itkImageRegion.h"
#include "itkPoint.h"
#include "itkVector.h"
#include "itkFixedArray.h"
#include "itkMatrix.h"

namespace itk {

class RegressionInst : public Regression
{
public:
  int Test(int, char **)
  {
    Size<3> s; Index<3> i; ImageRegion<3> r; Point<double, 3> p; Vector<double, 3> v; FixedArray<double, 3> a; Matrix<double, 3, 4> m;
    return this->MeasurementInsightSize(s, "s") + this->MeasurementInsightIndex(i, "i") + this->MeasurementInsightRegion(r, "r") +
      this->MeasurementInsightPoint(p, "p") + this->MeasurementInsightVector(v, "v") + this->MeasurementInsightFixedArray(a, "a") +
      this->MeasurementInsightMatrix(m, "m");
  }
};

}
